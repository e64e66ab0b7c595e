"""C18: each user is judged by the global configuration plus that user's own preferences only.

Requests of several users, with and without preferences and with names that are paths, arrive
interleaved at one daemon; every response must be the one a fresh rule set loaded from exactly the files
meant for that user gives.  Homes live below a scratch root and every path looked up is recorded.
"""
import os
import re
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vh import core, daemon, homes, oah, world
import oa
import vhprobe

WORDS = ["alpha", "bravo", "charlie", "delta", "echo", "foxtrot"]
USERS = ["ann", "bob", "carol", "dave.x", "eve-1", "root", "j\xf6rg", "sp ace", "%s", "x" * 60]
PATHS = ["../tmp/trap", "../../tmp/trap", "/tmp/trap", "..", ".", "", "ann/../bob", "ann/sub", "./ann", "../home/ann",
         "ann/", "//tmp/trap", "/", "sub/../../tmp/trap", "trap\0x", "~ann", "../trap"]
TRAPS = ["tmp/trap", "home/ann/sub", "trap", ".", "home", "tmp", "home/trap"]


def rules(rng, who, names):
    out = []
    for n in names:
        out.append("%s %s /%s/" % (rng.choice(["body", "rawbody", "full"]), n, rng.choice(WORDS)))
        if rng.random() < .8:
            out.append("score %s %s" % (n, rng.choice([1, 2.5, -1, 0, 0.3, 7])))
        if rng.random() < .4:
            out.append("describe %s of %s" % (n, who))
    return out


def options(rng, who):
    pool = ["required_score %s" % rng.choice([1, 2, 4, 50, -3]), "report_safe %d" % rng.choice([0, 1, 2]),
            "report %s _SCORE_ _REQD_ _TESTS_" % who, "clear_report_template\nreport only %s _TESTS_" % who,
            "add_header all By%s _TESTS_" % who, "add_header spam S%s _SCORE_" % who, "clear_headers",
            "remove_header all ByGLOBAL", "whitelist_from *@%s.example" % who, "blacklist_from %s@x.example" % who,
            "unwhitelist_from *@GLOBAL.example", "trusted_networks 192.0.2.0/24", "internal_networks 192.0.2.1",
            "report_contact %s" % who, "clear_trusted_networks", "originating_ip_headers X-%s" % who,
            "unsafe_report unsafe %s" % who, "use_bayes 0", "use_network 0", "allow_user_rules 0",
            "freemail_domains %s.example" % who, "rewrite_header Subject *%s*" % who]
    return rng.sample(pool, rng.choice([0, 1, 3, 6]))


def gen(rng, i, tier):
    plugins = ["vhprobe.Probe", "oa.plugins.wlbl_eval.WLBLEvalPlugin", "oa.plugins.free_mail.FreeMail",
               "oa.plugins.relay_eval.RelayEval"]
    base = ["loadplugin " + p for p in plugins] + [
        "allow_user_rules %s" % rng.choice(["1", "1", "1", "True", "0", "False", "no"]),
        "body PROBED eval:probe('x')", "header WL eval:check_from_in_whitelist()", "score WL -3",
        "header BL eval:check_from_in_blacklist()", "score BL 6", "header FREE eval:check_freemail_from()",
        "header TRUST eval:check_all_trusted()", "meta MET G0 && PROBED", "score PROBED 0.7",
        "report g _RELAYSTRUSTED_ _RELAYSUNTRUSTED_"]
    base += rules(rng, "GLOBAL", ["G%d" % n for n in range(4)]) + options(rng, "GLOBAL")
    base = [b for b in base if not (b.startswith("allow_user") and b != base[4])]
    users = {}
    for u in rng.sample(USERS, rng.choice([2, 3, 5])):
        if rng.random() < .8:
            tag = "U%d" % USERS.index(u)
            lines = options(rng, tag)
            lines += rules(rng, tag, rng.sample(["%s_%d" % (tag, n) for n in range(3)] + ["G1", "SHARED"],
                                                rng.randrange(4)))
            for g in rng.sample(["G0", "G1", "G2", "WL", "PROBED", "MET", "BL"], rng.randrange(4)):
                lines.append("score %s %s" % (g, rng.choice([0, 5, -2, 0.1])))
            if rng.random() < .3:
                lines.append("meta %s_M G2 || PROBED" % tag)
            if rng.random() < .3:
                lines.append("body %s_E eval:probe('%s')" % (tag, tag))
            users[u] = "\n".join(lines) + "\n"
        else:
            users[u] = None
    names = list(users) + ["nobody"]
    reqs = []
    for _ in range(rng.choice([12, 24])):
        r = rng.random()
        user = None if r < .15 else rng.choice(PATHS) if r < .35 else rng.choice(names)
        reqs.append([user, rng.randrange(3), rng.choice(["REPORT", "PROCESS", "SYMBOLS", "CHECK", "HEADERS"]),
                     rng.random() < .15])
    msgs = []
    for _ in range(3):
        msgs.append("Received: from a (a [%s]) by mx.example.com with SMTP id 1; Mon, 1 Jan 2018 10:00:00 +0000\n"
                    "From: %s\nTo: b@x.example\nSubject: %s\n\n%s\n" % (
                        rng.choice(["192.0.2.1", "192.0.2.7", "10.0.0.1", "198.51.100.4"]),
                        rng.choice(["q@GLOBAL.example", "q@U0.example", "q@U1.example", "U2@x.example"]),
                        rng.choice(WORDS), " ".join(rng.sample(WORDS, 3))))
    return {"base": "\n".join(base) + "\n", "users": users, "reqs": reqs, "msgs": msgs,
            "truth": {"x": rng.random() < .6, "U0": True, "U1": True}}


def allowed(case):
    v = [l.split()[1] for l in case["base"].splitlines() if l.startswith("allow_user_rules")][-1]
    return v.lower() in ("1", "true")


def judge(rs, cmd, raw):
    msg = oah.scan(rs, raw)
    spam = msg.score >= rs.conf["required_score"]
    body = {"CHECK": lambda: "", "SYMBOLS": lambda: ",".join(sorted(oah.hits(msg))),
            "REPORT": lambda: rs.get_report(msg), "PROCESS": lambda: rs.get_adjusted_message(msg),
            "HEADERS": lambda: rs.get_adjusted_message(msg, header_only=True)}[cmd]()
    return spam, "%.1f" % msg.score, float(rs.conf["required_score"]), world.clean(body)


def run(case, obs):
    with oah.TempDir() as d:
        root = os.path.join(d, "root")
        cdir = os.path.join(d, "conf")
        half = case["base"].splitlines(True)
        k = len(half) // 2
        oah.write(os.path.join(cdir, "10.cf"), "".join(half[:k]))
        oah.write(os.path.join(cdir, "20.cf"), "".join(half[k:]))
        for t in TRAPS:
            homes_path = os.path.join(root, t, ".spamassassin", "user_prefs")
            oah.write(homes_path, "body TRAP /./\nscore TRAP 33\nreport TRAPPED\n")
        for u, text in case["users"].items():
            if text is not None:
                homes.prefs(root, u, text)
        homes.install(root)
        vhprobe.reset(dict(case["truth"]))
        srv = daemon.InProc(cdir)
        try:
            oracles = {}

            def oracle(u):
                key = u if allowed(case) and u is not None and case["users"].get(u) is not None else None
                if key not in oracles:
                    texts = ["".join(half[:k]), "".join(half[k:])]
                    if key is not None:
                        texts.append(case["users"][key])
                    oracles[key] = oah.load(texts)[0]
                return key, oracles[key]
            served = []
            for n, (u, m, cmd, tell) in enumerate(case["reqs"]):
                raw = case["msgs"][m]
                del homes.LOG[:]
                del srv.errors[:]
                if tell:
                    srv.request(daemon.req("PING"))
                got = srv.request(daemon.req(cmd, raw, ["User: %s" % u] if u is not None else []))
                asked = [p for p in homes.LOG]
                key, rs = oracle(u)
                obs.count("requests")
                where = "request %d of user %r (%s, after %r)" % (n, u, cmd, served[-3:])
                served.append(u)
                bad = [p for p in asked if not re.match(r"^/home/[^/]+(/\.spamassassin(/user_prefs)?)?$",
                                                        os.path.normpath(p)) or "/../" in p]
                obs.expect(not bad, "path", "%s: looked at %r", where, bad)
                if key is not None:
                    obs.count("judged_by_preferences")
                    other = [p for p in asked if "user_prefs" in p and
                             p != "/home/%s/.spamassassin/user_prefs" % u]
                    obs.expect(not other, "other-file", "%s: looked at %r", where, other)
                elif u in PATHS:
                    obs.count("path_names")
                resp = daemon.Response(got)
                if srv.errors or resp.length is None:
                    obs.violation("failed", "%s: %r, answered %r" % (where, srv.errors, got[:200]))
                    continue
                want = judge(rs, cmd, raw)
                body = world.clean(resp.body.decode("utf8", "replace"))
                if cmd == "SYMBOLS":
                    body = ",".join(sorted(body.split(",")))
                have = (resp.spam, resp.score, float(resp.required), body)
                if have != want:
                    what = [a for a, x, y in zip(("verdict", "score", "threshold", "body"), have, want) if x != y][0]
                    obs.violation(("user-" if key is not None else "global-") + what, "%s: %.500r instead of %.500r" % (
                        where, have, want))
                if any(o is not rs and judge(o, cmd, raw) != want for o in list(oracles.values())):
                    obs.count("distinguishable")
            obs.nontrivial(case["base"], sorted((a, b) for a, b in case["users"].items() if b), case["reqs"])
            obs.count("allowed" if allowed(case) else "denied")
            obs.sample({"users": case["users"], "requests": served}, 2)
        finally:
            srv.close()


def init(shard):
    world.install()


if __name__ == "__main__":
    core.main("C18", gen, run, (400, 12000),
              "random global configurations and preferences of 2-5 users (rules, scores, thresholds, templates, "
              "lists, networks, eval rules of global plugins), 12-24 interleaved requests with plain, unknown and "
              "path-like user names; each response is compared with a rule set loaded from that user's files only",
              require={"requests": 3000, "judged_by_preferences": 600, "path_names": 300, "distinguishable": 800,
                       "allowed": 60, "denied": 30}, init=init)
