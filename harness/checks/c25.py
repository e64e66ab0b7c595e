"""C25: every eval rule of the white- and blacklists against an own reading of the lists and the message."""
import os
import re
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import ipaddress

from vh import core, oah
from checks import c09

DOMAINS = ["example.com", "sub.example.com", "evilexample.com", "example.com.evil.net", "example.net", "ex-ample.com", "exXmple.com",
           "a.b.c.test", "co.uk", "shop.co.uk", "Mixed.Example.ORG", "examplecom", "xn--bcher-kva.example"]
LOCALS = ["ann", "ANN", "bob", "a.b", "aXb", "a+b", "aab", "ann.smith", "x_y", "list-owner", "a=b", "ann!x", "o'neil", "a|b", "a$", "^ann", "{x}"]
FROMS = ["From", "From", "From", "Envelope-Sender", "X-Envelope-From", "EnvelopeFrom", "Sender", "Reply-To"]
TOS = ["To", "To", "Cc", "Apparently-To", "Delivered-To", "Envelope-Recipients", "Apparently-Resent-To", "X-Envelope-To", "Envelope-To",
       "X-Delivered-To", "X-Original-To", "X-Rcpt-To", "X-Real-To", "Bcc", "Errors-To"]
NOT_FROM, NOT_TO = ("Sender", "Reply-To"), ("Bcc", "Errors-To")
LISTS = ["whitelist_from", "blacklist_from", "whitelist_to", "blacklist_to", "more_spam_to", "all_spam_to", "whitelist_allow_relays"]
RCVD = ["whitelist_from_rcvd", "def_whitelist_from_rcvd"]
IPS = ["5.79.73.204", "5.79.73.9", "5.79.74.204", "150.1.2.3", "2a01:4f8::5", "93.184.216.34", "10.1.2.3"]
HOSTS = ["example.com", "sub.example.com", "deep.sub.example.com", "evilexample.com", "example.com.evil.net", "example.net", "net", "com",
         "1.2.3.4", "11.2.3.4", "x.test", "Example.ORG"]
TLDS = ["com", "co.uk", "net", "org", "b.c.test", "c.test", "test"]


def gen_addr(rng):
    return rng.choice(LOCALS) + "@" + rng.choice(DOMAINS)


def gen_glob(rng, pool):
    """A glob made out of an address that may occur, or something near it."""
    a = rng.choice(pool) if rng.random() < .8 else gen_addr(rng)
    local, dom = a.split("@")
    k = rng.randrange(9)
    if k == 0:
        g = a
    elif k == 1:
        g = "*@" + dom
    elif k == 2:
        g = dom
    elif k == 3:
        g = "*" + dom[rng.randrange(len(dom)):] if "." in dom else dom
    elif k == 4:
        j = rng.randrange(len(a))
        g = a[:j] + "?" + a[j + 1:] if a[j] != "@" else a
    elif k == 5:
        j = rng.randrange(len(a))
        n = rng.randrange(j, len(a))
        g = a[:j] + "*" + a[n:]
    elif k == 6:
        g = local + "@*." + dom.split(".", 1)[-1]
    elif k == 7:
        g = rng.choice(["*", "*@*", "*.com", "?@example.com", "??*@example.com", "example", "*example*", "@example.com", "*@example.*"])
    else:
        # a proper part of the address
        j = rng.randrange(3)
        g = a[1:] if j == 0 else a[:-1] if j == 1 else local[1:] + "@" + dom
    if rng.random() < .25:
        g = g.upper() if rng.random() < .5 else g.swapcase()
    return g.replace("#", "x")


def gen(rng, i, tier):
    pool = [gen_addr(rng) for _ in range(rng.choice([1, 2, 4]))]

    def header(names):
        out = []
        for _ in range(rng.choice([0, 1, 1, 1, 2])):
            addrs = [[rng.choice(["", "", "Full Name", rng.choice(pool)]), rng.choice(pool) if rng.random() < .7 else gen_addr(rng)]
                     for _ in range(rng.choice([1, 1, 2, 3]))]
            out.append([rng.choice(names), addrs])
        return out
    heads = header(FROMS) + header(TOS)
    if rng.random() < .12:
        heads += [["Resent-From", [["", rng.choice(pool)]]]]
    if rng.random() < .12:
        heads += [[rng.choice(["Resent-To", "Resent-Cc"]), [["", rng.choice(pool)]]]]
    rng.shuffle(heads)
    seen = [a for n, l in heads for _, a in l] or pool
    lines = []
    for name in LISTS:
        for _ in range(rng.choice([0, 1, 1, 2])):
            lines.append([name, [gen_glob(rng, seen) for _ in range(rng.choice([1, 1, 2, 4]))]])
    nets = [[rng.choice(["trusted_networks", "internal_networks"]), rng.choice(IPS[:6])] for _ in range(rng.choice([0, 0, 1, 2]))]
    chain = [[rng.choice(IPS), rng.choice(DOMAINS + ["mail.example.com", "relay.shop.co.uk", "x.b.c.test", "notexample.com"]).lower()]
             for _ in range(rng.choice([0, 1, 1, 2, 3]))]
    for name in RCVD:
        for _ in range(rng.choice([0, 0, 1, 2, 3])):
            es = []
            for _ in range(rng.choice([1, 1, 2])):
                doms = []
                for _ in range(rng.choice([1, 1, 1, 2])):
                    ip, rdns = rng.choice(chain) if chain and rng.random() < .7 else [rng.choice(IPS), rng.choice(DOMAINS)]
                    form = rng.choice(["[%s]", "%s", "part", "net", "rdns", "rdns", "parent", "child", "tail"])
                    if form == "part":
                        d = "[" + ".".join(ip.split(".")[:3]) + "]" if ":" not in ip else "[%s]" % ip
                    elif form == "net":
                        d = ".".join(ip.split(".")[:3]) + ".0/24" if ":" not in ip else "[2a01:4f8::/32]"
                    elif form == "rdns":
                        d = rdns
                    elif form == "parent":
                        d = rdns.split(".", 1)[-1]
                    elif form == "child":
                        d = "x." + rdns
                    elif form == "tail":
                        d = rdns[1:].strip(".") or rdns
                    else:
                        d = form % ip
                    doms.append(d.upper() if rng.random() < .15 and "[" not in d else d)
                es.append([gen_glob(rng, seen), doms])
            lines.append([name, es])
    rng.shuffle(lines)
    hosts = []
    for _ in range(rng.choice([0, 1, 2, 4])):
        hs = [("!" if rng.random() < .25 else "") + rng.choice(HOSTS) for _ in range(rng.choice([1, 2, 3]))]
        what = rng.choice(["enlist (MYLIST)", "enlist (MYLIST)", "enlist (OTHER)", "whitelist", "blacklist", "enlist (WHITE)",
                           "enlist (BLACK)"])
        hosts.append([what, hs])
    for _ in range(rng.choice([0, 0, 1])):
        hosts.append([rng.choice(["delist (MYLIST)", "delist", "delist (WHITE)"]), [rng.choice(HOSTS)]])
    uris = []
    for _ in range(rng.choice([0, 1, 1, 2])):
        h = rng.choice(HOSTS)
        if h in ("net", "com"):
            h = "www.example." + h
        uris.append([rng.choice(["http://", "https://", "ftp://", "HTTP://"]) + rng.choice(["", "", "user@", "example.com@"]),
                     h.upper() if rng.random() < .15 else h, rng.choice(["", "/", "/path/example.net", ":8080", "?q=example.com", "/x@example.net"])])
    return {"heads": heads, "lines": lines, "nets": nets, "chain": chain, "hosts": hosts, "uris": uris,
            "sender": rng.choice([None, rng.choice(seen), gen_addr(rng)]), "tlds": rng.sample(TLDS, rng.randrange(4)),
            "comma": rng.random() < .5}


# -- the oracle ---------------------------------------------------------------------------------
def glob(pattern, text, one):
    """Own matcher; ? is exactly one character, or (not one) also none."""
    p, t = pattern.lower(), text.lower()
    states = {0}

    def close(st):
        out = set()
        todo = list(st)
        while todo:
            s = todo.pop()
            if s in out:
                continue
            out.add(s)
            if s < len(p) and (p[s] == "*" or p[s] == "?" and not one):
                todo.append(s + 1)
        return out
    states = close(states)
    for c in t:
        nxt = set()
        for s in states:
            if s < len(p):
                if p[s] == "*":
                    nxt.add(s)
                elif p[s] == "?" or p[s] == c:
                    nxt.add(s + 1)
        states = close(nxt)
    return len(p) in states


def whole(g):
    if not any(c in g for c in "?@."):
        return None             # not an address nor a domain
    return g if "@" in g else "*@" + g


class Unclear(Exception):
    pass


def match(g, addr):
    g = whole(g)
    if g is None:
        return False
    a, b = glob(g, addr, True), glob(g, addr, False)
    if a != b:
        raise Unclear()
    return a


def any_match(globs, addrs):
    unclear = False
    for g in globs:
        for a in addrs:
            try:
                if match(g, a):
                    return True
            except Unclear:
                unclear = True
    if unclear:
        raise Unclear()
    return False


class Model(object):
    def __init__(self, c):
        self.c = c
        self.lists = dict((n, []) for n in LISTS + RCVD)
        for n, es in c["lines"]:
            self.lists[n].extend(es)
        byname = {}
        for n, addrs in c["heads"]:
            byname.setdefault(n, []).extend(a for _, a in addrs)
        self.froms = byname.get("Resent-From") or [a for n, l in byname.items() if n in FROMS and n not in NOT_FROM for a in l]
        self.tos = (byname.get("Resent-To", []) + byname.get("Resent-Cc", [])) or \
            [a for n, l in byname.items() if n in TOS and n not in NOT_TO for a in l]
        nets = []
        for n, text in c["nets"]:
            net = ipaddress.ip_network(text)
            nets.append((text, net.version, int(net[0]), int(net[-1]), False))
        trusted, self.trusted, self.untrusted = True, [], []
        for ip, rdns in c["chain"]:
            a = ipaddress.ip_address(ip)
            if trusted:
                trusted = c09.Model.member(nets, a.version, int(a)) if nets else ip.startswith("10.")
            (self.trusted if trusted else self.untrusted).append((ip, rdns))
        self.relays = self.untrusted[:1] or self.trusted

    def relay_match(self, text):
        d = text.strip("[]").lower()
        for ip, rdns in self.relays:
            try:
                if re.match(r"^\d+\.\d+\.\d+$", d):
                    net = ipaddress.ip_network(d + ".0/24")
                else:
                    net = ipaddress.ip_network(d)
                if ipaddress.ip_address(ip) in net:
                    return True
            except ValueError:
                if rdns == d or rdns.endswith("." + d):
                    return True
        return False

    def rcvd(self, name):
        """-> 1 listed with its relay, -1 listed but from elsewhere, 0"""
        state = 0
        if not self.relays:
            return 0
        for a in self.froms:
            forged = False
            for g, doms in self.lists[name]:
                if match(g, a):
                    if any(self.relay_match(d) for d in doms):
                        return 1
                    forged = True
            if forged and not any_match(self.lists["whitelist_allow_relays"], [a]):
                state = -1
        return state

    def white(self):
        if any_match(self.lists["whitelist_from"], self.froms):
            return 1
        return self.rcvd("whitelist_from_rcvd")

    def hosts(self, name):
        added, removed, clash = {}, set(), set()
        for what, hs in self.c["hosts"]:
            key = {"whitelist": "WHITE", "blacklist": "BLACK"}.get(what, what.split("(")[-1].rstrip(")"))
            for h in hs:
                host = h.lstrip("!").lower()
                if what == "delist" or what.startswith("delist") and key == name:
                    removed.add(host)
                elif not what.startswith("delist") and key == name:
                    if added.setdefault(host, h[0] != "!") != (h[0] != "!"):
                        clash.add(host)
        for h in removed:
            added.pop(h, None)
        return added, clash - removed

    def listed(self, name):
        added, clash = self.hosts(name)
        unclear = False
        for _, host, _ in self.c["uris"]:
            labels = host.lower().split(".")
            if re.match(r"^[\d.]+$", host):
                names = [host]
            else:
                names = [".".join(labels[k:]) for k in range(len(labels))]
            for n in names:
                if n in clash:
                    unclear = True
                    break
                if n in added:
                    if added[n]:
                        return True
                    break
        if unclear:
            raise Unclear()
        return False

    def mailfrom(self):
        s = self.sender()
        if not s:
            if self.c["heads"]:
                raise Unclear()     # the sender may be taken from a header
            return False
        labels = s.split("@")[1].lower().split(".")
        n = len(labels)
        if n >= 3:
            n = 4 if ".".join(labels[-3:]) in self.c["tlds"] else 3 if ".".join(labels[-2:]) in self.c["tlds"] else 2
        base = ".".join(labels[-n:])
        return any(r == base or r.endswith("." + base) for _, r in self.relays)

    def sender(self):
        return self.c["sender"] if self.c["chain"] else None


RULES = [("W", "check_from_in_whitelist()", lambda m: m.white() > 0),
         ("B", "check_from_in_blacklist()", lambda m: any_match(m.lists["blacklist_from"], m.froms)),
         ("DW", "check_from_in_default_whitelist()", lambda m: m.rcvd("def_whitelist_from_rcvd") > 0),
         ("FL", "check_from_in_list('whitelist_from')", lambda m: any_match(m.lists["whitelist_from"], m.froms)),
         ("FB", "check_from_in_list('blacklist_to')", lambda m: any_match(m.lists["blacklist_to"], m.froms)),
         ("TW", "check_to_in_whitelist()", lambda m: any_match(m.lists["whitelist_to"], m.tos)),
         ("TB", "check_to_in_blacklist()", lambda m: any_match(m.lists["blacklist_to"], m.tos)),
         ("TM", "check_to_in_more_spam()", lambda m: any_match(m.lists["more_spam_to"], m.tos)),
         ("TA", "check_to_in_all_spam()", lambda m: any_match(m.lists["all_spam_to"], m.tos)),
         ("TL", "check_to_in_list('whitelist_from')", lambda m: any_match(m.lists["whitelist_from"], m.tos)),
         ("FW", "check_forged_in_whitelist()", lambda m: m.white() < 0 and m.rcvd("def_whitelist_from_rcvd") == 0),
         ("FD", "check_forged_in_default_whitelist()", lambda m: m.white() == 0 and m.rcvd("def_whitelist_from_rcvd") < 0),
         ("UM", "check_uri_host_listed('MYLIST')", lambda m: m.listed("MYLIST")),
         ("UW", "check_uri_host_in_whitelist()", lambda m: m.listed("WHITE")),
         ("UB", "check_uri_host_in_blacklist()", lambda m: m.listed("BLACK")),
         ("MR", "check_mailfrom_matches_rcvd()", lambda m: m.mailfrom())]


def config(c):
    out = ["loadplugin oa.plugins.wlbl_eval.WLBLEvalPlugin"]
    out += ["%s %s" % tuple(n) for n in c["nets"]]
    for n, es in c["lines"]:
        if n in RCVD:
            values = ["%s %s" % (g, " ".join(d)) for g, d in es]
            out += ["%s %s" % (n, ", ".join(values))] if c["comma"] else ["%s %s" % (n, v) for v in values]
        else:
            out.append("%s %s" % (n, " ".join(es)))
    for what, hs in c["hosts"]:
        verb, _, key = what.partition(" ")
        out.append("%s_uri_host %s%s" % (verb, key + " " if key else "", " ".join(hs)))
    if c["tlds"]:
        out += ["util_rb_tld com net org", "util_rb_2tld " + " ".join(t for t in c["tlds"]) + " co.test"]
    out += ["body %s eval:%s" % (n, e) for n, e, _ in RULES]
    return "\n".join(out) + "\n"


def raw(c):
    h = []
    for k, (ip, rdns) in enumerate(c["chain"]):
        env = "\n (envelope-from <%s>)" % c["sender"] if c["sender"] else ""
        h.append("Received: from helo%d.example.org (%s [%s])\n by mx%d.example.com with esmtps (Exim 4.85)%s\n id 1aaNAy-0006f%d-LZ"
                 " for u@example.com; Mon, 01 Jan 2018 00:00:0%d +0000" % (k, rdns, ip, k, env, k, k))
    for n, addrs in c["heads"]:
        h.append("%s: %s" % (n, ", ".join('"%s" <%s>' % (p, a) if p else a for p, a in addrs)))
    body = "\n".join("see %s%s%s now" % tuple(u) for u in c["uris"])
    return "\n".join(h + ["Subject: s", "", "text", body, ""])


def run(case, obs):
    c = case
    cf, text = config(c), raw(c)
    m = Model(c)
    rs, parser = oah.load(cf)
    msg = oah.scan(rs, text)
    if not obs.expect([str(ipaddress.ip_address(str(r["ip"]))) for r in msg.trusted_relays + msg.untrusted_relays] ==
                      [ip for ip, _ in c["chain"]] and (not c["chain"] or [r["rdns"] for r in msg.trusted_relays + msg.untrusted_relays]
                                                        == [r for _, r in c["chain"]]), "relays", "relays read as %s\n%s",
                      msg.trusted_relays + msg.untrusted_relays, text):
        return
    got = set(oah.hits(msg))
    some = False
    for n, e, f in RULES:
        try:
            want = f(m)
        except Unclear:
            obs.count("unclear")
            continue
        obs.count("rules")
        obs.count("hits" if want else "misses")
        obs.seen("outcomes", "%s/%s" % (n, want))
        some = some or want
        obs.expect((n in got) == bool(want), "hit:" + n, "%s: hit is %s, the lists say %s\nfrom %s to %s relays %s\n%s\n%s",
                   e, n in got, want, m.froms, m.tos, m.relays, cf, text)
    if some:
        obs.nontrivial(cf, text)
    obs.sample({"config": cf, "message": text}, 3)


if __name__ == "__main__":
    core.main("C25", gen, run, (2500, 60000),
              "random lists of globs made from and near the addresses (wildcards, parts, case, metacharacters), relay conditions by "
              "address, network and name, host lists with exclusions and removals; messages with several address headers, relays, URIs",
              require={"rules": 10000, "hits": 1000, "misses": 1000})
