"""C23: the auto-whitelist table after every scan of a history, and the adjustment, against a model."""
import ipaddress
import os
import random
import sqlite3
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vh import core

# Half of the workers run without SQLAlchemy, on a stand-in for the MySQL driver; decided before oa is imported
oah = oa = pymysql = None

V4 = ["8.8.%d.%d", "8.9.%d.%d", "9.8.%d.%d", "17.0.%d.%d", "100.0.%d.%d", "18.%d.0.%d"]
V6 = ["2a00:1450:%x::%x", "2a00:1450:%x:1::%x", "2a01:%x::1:%x"]
PRIVATE = ["10.1.2.3", "192.168.7.1", "127.0.0.1", "172.16.3.4"]
SENDERS = ["ann@one.example.com", "bob@one.example.com", "ann@two.example.net", "a.n.n@one.example.com", "ann%@one.example.com",
           "an_@one.example.com", "o'brien@one.example.com", "none@x.example.org"]
SIGNERS = ["", "", "", "one.example.com", "two.example.net", "bulk.example.org"]
SCORES = [0.5, 1.25, 2, -1, -2.5, 4, 7, -0.5, 3]


def ip(rng):
    r = rng.random()
    if r < .75:
        return rng.choice(V4) % (rng.choice([0, 1, 7, 255]), rng.choice([0, 1, 2, 9]))
    if r < .9:
        return rng.choice(V6) % (rng.choice([1, 2, 0xffff]), rng.choice([1, 2]))
    return None


def gen(rng, i, tier):
    senders = rng.sample(SENDERS, rng.choice([1, 2, 3, 4]))
    signers = rng.sample(SIGNERS, rng.choice([1, 2, 3]))
    ips = [ip(rng) for _ in range(rng.choice([1, 2, 3, 4]))]
    scans = []
    for _ in range(rng.choice([4, 10, 20, 35])):
        scans.append({"from": rng.choice(senders) if rng.random() < .97 else "", "ip": rng.choice(ips),
                      "via": rng.choice([None, None, rng.choice(PRIVATE), "8.200.1.1"]), "inner": rng.random() < .3,
                      "signer": rng.choice(signers), "hits": [k for k in range(len(SCORES)) if rng.random() < rng.choice([.1, .3, .6])],
                      "user": rng.choice([0, 0, 0, 1]), "op": rng.choice(["scan"] * 9 + ["restart"])})
    return {"scans": scans, "factor": rng.choice([None, None, 0.5, 0, 1, 0.25, 0.1]),
            "v4": rng.choice([None, None, 8, 16, 24, 32]), "v6": rng.choice([None, None, 32, 48, 64, 128]),
            "seed": rng.randrange(1 << 30)}


def build(s):
    head = []
    lines = []
    # written by the nearest relay first
    if s["via"] and s["ip"]:
        lines.append("from relay.example.org (relay.example.org [%s]) by mx.example.com with SMTP id a1; Thu, 01 Jan 2015 "
                     "10:00:01 +0000" % s["via"])
    if s["ip"]:
        lines.append("from client.example.org (client.example.org [%s]) by relay.example.org with SMTP id b2; Thu, 01 Jan 2015 "
                     "10:00:00 +0000" % s["ip"])
    if s["inner"]:
        lines.append("from pc.example.org (pc.example.org [10.9.8.7]) by client.example.org with SMTP id c3; Thu, 01 Jan 2015 "
                     "09:59:00 +0000")
    head += ["Received: " + x for x in lines]
    if s["signer"]:
        head.append("DKIM-Signature: v=1; a=rsa-sha256; c=relaxed/relaxed; d=%s; s=x; h=from; bh=YQ==; b=YQ==" % s["signer"])
    if s["from"]:
        head.append("From: Some One <%s>" % s["from"])
    head += ["To: b@example.com", "Subject: s"]
    return "\n".join(head) + "\n\nstart %s end\n" % " ".join("word%d" % k for k in s["hits"])


def network(case, text):
    if text is None:
        return "none"
    addr = ipaddress.ip_address(text)
    bits = (case["v4"] or 16) if addr.version == 4 else (case["v6"] or 48)
    return int(addr) >> (addr.max_prefixlen - bits), addr.version


def config(case, path):
    out = ["loadplugin oa.plugins.awl.AutoWhiteListPlugin", "required_score 1000"]
    if pymysql:
        out += ["user_awl_dsn DBI:mysql:%s:dbhost" % os.path.basename(path), "user_awl_sql_username me",
                "user_awl_sql_password secret"]
    else:
        out += ["user_awl_dsn %s%s" % ("DBI:SQLite:dbname=" if case["seed"] % 2 else "sqlite:///", path)]
    for name, key in (("factor", "auto_whitelist_factor"), ("v4", "auto_whitelist_ipv4_mask_len"),
                      ("v6", "auto_whitelist_ipv6_mask_len")):
        if case[name] is not None:
            out.append("%s %s" % (key, case[name]))
    for k, s in enumerate(SCORES):
        out += ["body B%d /word%d\\b/" % (k, k), "score B%d %s" % (k, s)]
    out += ["header AWL eval:check_from_in_auto_whitelist()", "priority AWL -1000", "score AWL 1",
            "add_header all Awl _AWL_ _AWLMEAN_ _AWLCOUNT_ _AWLPRESCORE_"]
    return "\n".join(out) + "\n"


def run(case, obs):
    with oah.TempDir() as d:
        path = os.path.join(d, "awl.db")
        con = sqlite3.connect(path)
        con.execute("create table awl (username varchar(255), email varchar(200), ip varchar(40), count integer, totscore float, "
                    "signedby varchar(255), primary key (username, email, signedby, ip))")
        con.close()
        if pymysql:
            pymysql.ROOT[0] = d

        def start():
            out = []
            for user in ("ursula", "victor"):
                rs = oah.load(config(case, path))[0]
                rs.ctxt.username = user
                out.append(rs)
            return out

        rulesets = start()
        model = {}
        factor = .5 if case["factor"] is None else case["factor"]
        for n, s in enumerate(case["scans"]):
            if s["op"] == "restart":
                rulesets = start()
                obs.count("restarts")
                continue
            raw = build(s)
            rs = rulesets[s["user"]]
            user = rs.ctxt.username
            msg = oah.scan(rs, raw)
            obs.count("scans")
            # the address of origin: the earliest relay with a public address
            origin = s["ip"]
            who = (user, s["from"], s["signer"])
            key = who + (network(case, origin),)
            pre = float(sum(SCORES[k] for k in s["hits"]))
            if key not in model and who + ("none",) in model:
                # a history without a network is that of the first network
                model[key] = model.pop(who + ("none",))
                obs.count("moved")
            count, total = model.get(key, (0, 0.0))
            want = pre
            what = "scan %d of %d (user %s, from %s, origin %s via %s, signed by %r, scores %s)" % (
                n, len(case["scans"]), user, s["from"], origin, s["via"], s["signer"], pre)
            if count:
                mean = total / count
                want = pre + (mean - pre) * factor
                obs.count("adjusted")
                if mean == 0:
                    obs.count("mean-zero")
                tags = "%2.1f %2.1f %2.1f %2.1f" % ((mean - pre) * factor, mean, count, pre)
                got = " ".join(str(msg.plugin_tags.get(t, "")).strip() for t in ("AWL", "AWLMEAN", "AWLCOUNT", "AWLPRESCORE"))
                near = any(abs(abs(x) * 10 % 1 - .5) < 1e-6 for x in ((mean - pre) * factor, mean, pre))
                if not near:
                    obs.expect([float(x) for x in got.split()] == [float(x) for x in tags.split()], "tags",
                               "in %s the tags are %s, not %s", what, got, tags)
            else:
                obs.count("first")
            if not obs.expect(abs(msg.score - want) < 1e-6, "score", "in %s the score is %s, not %s: the history is %s messages "
                              "with a total of %s, the factor %s", what, msg.score, want, count, total, factor):
                return
            model[key] = (count + 1, total + pre)
            con = sqlite3.connect(path)
            try:
                rows = con.execute("select username, email, signedby, ip, count, totscore from awl").fetchall()
            finally:
                con.close()
            obs.count("states")
            have, expected = {}, {}
            for u, e, g, _, c, t in rows:
                have.setdefault((u, e, g), []).append((c, round(t, 5) + 0.0))
            for (u, e, g, _), (c, t) in model.items():
                expected.setdefault((u, e, g), []).append((c, round(t, 5) + 0.0))
            bad = [k for k in set(have) | set(expected) if sorted(have.get(k, [])) != sorted(expected.get(k, []))]
            if not obs.expect(not bad, "history", "after %s the histories (count, total) of %s are %s, not %s", what, bad[:2],
                              [sorted(have.get(k, [])) for k in bad[:2]], [sorted(expected.get(k, [])) for k in bad[:2]]):
                return
        obs.count("mysql" if pymysql else "sqlalchemy")
        obs.seen("keys", len(model))
        if len(model) > 2:
            obs.count("several-keys")
    obs.nontrivial(case)
    obs.sample({"first": build(case["scans"][0]), "model": [(list(k), v) for k, v in list(model.items())[:3]]}, 2)


def init(shard):
    global oah, oa, pymysql
    if shard % 2:
        for name in ("sqlalchemy", "sqlalchemy.ext", "sqlalchemy.orm"):
            sys.modules[name] = None
        sys.path.insert(0, os.path.join(core.VERIF, "harness", "fakes"))
        import pymysql as fake
        pymysql = fake
    from vh import oah as lib
    oah = lib
    import oa as package
    oa = package


if __name__ == "__main__":
    core.main("C23", gen, run, (480, 20000),
              "4-35 scans by two users with 1-4 senders, networks (also none, IPv6) and signers, masks and factors, restarts; "
              "through SQLAlchemy on sqlite, or without it on a stand-in for the MySQL driver; a case is one history",
              require={"scans": 2500, "adjusted": 1000, "first": 500, "moved": 60, "restarts": 200, "several-keys": 150,
                       "mysql": 100, "sqlalchemy": 100, "mean-zero": 15},
              init=init, budget=(200, 800))
