"""C02: which rules run, how often and in which order, against an independent model."""
from vh import core, oah, model
import vhprobe

KINDS = ["probe", "probe", "probe", "body", "rawbody", "full", "header", "exists", "mimeheader",
         "mimeraw", "uri", "meta", "hraw", "haddr", "hname", "all", "tocc", "msgid"]
DEFS = {
    "body": "body {n} /zzz/", "rawbody": "rawbody {n} /zzz/", "full": "full {n} /zzz/",
    "header": "header {n} Subject =~ /zzz/", "exists": "header {n} exists:X-Nothing",
    "mimeheader": "mimeheader {n} Content-Type =~ /zzz/",
    "mimeraw": "mimeheader {n} Content-Type:raw =~ /zzz/",
    "uri": "uri {n} /zzz/", "hraw": "header {n} Subject:raw =~ /zzz/",
    "haddr": "header {n} From:addr =~ /zzz/", "hname": "header {n} From:name =~ /zzz/",
    "all": "header {n} ALL =~ /zzz/", "tocc": "header {n} ToCc =~ /zzz/",
    "msgid": "header {n} MESSAGEID =~ /zzz/", "probe": "{t} {n} eval:probe('{n}')",
}
PRIOS = [None, None, None, "0", "1", "-1", "5", "5", "-7", "100", "-1000", "+3", "007", "999999999999",
         "abc", "1.5", "5x", "--1"]
FLAGS = ["net", "nice", "learn", "userconf", "noautolearn", "multiple", "noautolearn", "network",
         "unlearned"]
VALUES = ["1", "0", "0.0", "-0", "0.5", "-2.5", "3", "1e-3", "-0.0", "10", ".25", "+2"]
MSG = ("From: A B <a@example.com>\nTo: b@example.com\nMessage-Id: <x@y>\nSubject: hi\n"
       "Content-Type: text/plain\n\nhello http://example.com/\n")


def gen(rng, i, tier):
    rules = []
    n = rng.choice([1, 2, 3, 5, 8, 12, 20, 30])
    used = set()
    for k in range(n):
        prefix = rng.choice(["", "", "", "", "", "__", "_", "T_", "X__"])
        name = "%sR%s%d" % (prefix, rng.choice("ABCZ"), rng.randint(0, 99))
        if name in used:
            continue
        used.add(name)
        r = {"name": name, "kind": rng.choice(KINDS)}
        r["t"] = rng.choice(["body", "header", "full", "rawbody", "meta", "uri"])
        if r["kind"] == "meta" and not rules:
            r["kind"] = "body"
        if r["kind"] == "meta":
            r["refs"] = [rng.choice(rules)["name"] for _ in range(rng.randint(1, 2))]
        m = rng.random()
        if m < 0.3:
            r["score"] = None
        elif m < 0.6:
            r["score"] = [rng.choice(VALUES)]
        elif m < 0.97:
            r["score"] = [rng.choice(VALUES) for _ in range(4)]
        else:
            r["score"] = [rng.choice(VALUES) for _ in range(rng.choice([2, 3, 5, 6]))]
        r["priority"] = rng.choice(PRIOS)
        r["tflags"] = rng.sample(FLAGS, rng.choice([0, 0, 0, 1, 1, 2, 3]))
        rules.append(r)
    conf = dict((k, rng.random() < 0.5) for k in ("use_bayes", "use_network", "autolearn",
                                                  "user_config"))
    return {"rules": rules, "conf": conf, "late_options": rng.random() < 0.4,
            "conf_last": rng.random() < 0.5, "shuffle": rng.randint(0, 10 ** 6),
            "bool": rng.choice([("1", "0"), ("True", "False"), ("true", "false"), ("TRUE", "FALSE")]),
            "files": rng.choice([1, 1, 2, 3]), "scans": rng.choice([1, 2])}


def config(case):
    import random
    rng = random.Random(case["shuffle"])
    defs, opts = [], []
    for r in case["rules"]:
        n = r["name"]
        if r["kind"] == "meta":
            d = "meta %s %s" % (n, " || ".join(r["refs"]))
        else:
            d = DEFS[r["kind"]].format(n=n, t=r["t"])
        o = []
        if r["score"] is not None:
            o.append("score %s %s" % (n, " ".join(r["score"])))
        if r["priority"] is not None:
            o.append("priority %s %s" % (n, r["priority"]))
        if r["tflags"]:
            o.append("tflags %s %s" % (n, " ".join(r["tflags"])))
        rng.shuffle(o)
        if case["late_options"]:
            defs.append([d])
            opts.extend(o)
        else:
            defs.append([d] + o)
    rng.shuffle(opts)
    yes, no = case["bool"]
    conf = ["%s %s" % (k, yes if v else no) for k, v in sorted(case["conf"].items())]
    body = [l for d in defs for l in d] + opts
    lines = (body + conf) if case["conf_last"] else (conf + body)
    lines.insert(0, "loadplugin vhprobe.Probe")
    # split over files at arbitrary points
    k = case["files"]
    size = max(1, len(lines) // k + 1)
    return ["\n".join(lines[j:j + size]) + "\n" for j in range(0, len(lines), size)]


def expected(case):
    out = []
    for pos, r in enumerate(case["rules"]):
        hidden = r["name"].startswith("__")
        sc = None if r["score"] is None else [float(x) for x in r["score"]]
        if not hidden and sc is not None and len(sc) not in (1, 4):
            continue            # invalid rule: dropped
        eff = model.effective_score(r["name"], sc, r["tflags"], **case["conf"])
        if hidden or eff == 0:
            continue
        try:
            prio = int(r["priority"] or 0)
        except ValueError:
            prio = 0
        out.append((-prio, pos, r["name"], eff))
    # metas naming a dropped rule are invalid as well
    dropped = set(r["name"] for r in case["rules"]
                  if r["score"] is not None and len(r["score"]) not in (1, 4)
                  and not r["name"].startswith("__"))
    bad = set()
    changed = True
    while changed:
        changed = False
        for r in case["rules"]:
            if r["kind"] == "meta" and r["name"] not in bad and \
                    any(x in dropped or x in bad for x in r["refs"]):
                bad.add(r["name"])
                changed = True
    # nested-invalid metas: only direct reference makes a rule invalid; leave chains to C03
    out = [o for o in out if o[2] not in bad]
    return sorted(out), bad


def run(case, obs):
    files = config(case)
    rs, _ = oah.load(files)
    want, bad = expected(case)
    names = [w[2] for w in want]
    eff = dict((w[2], w[3]) for w in want)
    probes = set(r["name"] for r in case["rules"] if r["kind"] == "probe")
    metas_on = set()
    for r in case["rules"]:
        if r["kind"] == "meta":
            metas_on.update(r["refs"])
    for s in range(case["scans"]):
        vhprobe.reset(dict((n, True) for n in probes))
        msg = oah.scan(rs, MSG)
        got = list(msg.rules_checked)
        got_ok = [n for n in got if n not in bad]
        obs.count("scans")
        obs.count("rules_evaluated", len(got))
        if not obs.expect(sorted(got_ok) == sorted(names), "evaluated-set",
                          "evaluated %r, expected %r (conf %r)", got_ok, names, case["conf"]):
            return
        obs.expect(got_ok == names, "order", "evaluated in order %r, expected %r", got_ok, names)
        evals = [e[1] for e in vhprobe.LOG if e[0] == "eval"]
        want_log = [n for n in names if n in probes]
        if not metas_on & probes:
            obs.expect(evals == want_log, "once-in-order",
                       "probe evaluations %r expected %r", evals, want_log)
            obs.count("probe_logs")
        else:
            for n in want_log:
                if n not in metas_on:
                    obs.expect(evals.count(n) == 1, "once", "%s evaluated %d times", n,
                               evals.count(n))
        for n in got_ok:
            obs.expect(abs(rs.get_rule(n).score - eff[n]) < 1e-12, "effective-score",
                       "%s has score %r, expected %r", n, rs.get_rule(n).score, eff[n])
        total = sum(eff[n] for n in names if msg.rules_checked[n])
        obs.expect(abs(msg.score - total) < 1e-6, "score-effect", "score %r expected %r",
                   msg.score, total)
    prios = set(w[0] for w in want)
    if len(names) > 1:
        obs.nontrivial(names, sorted(eff.items()))
    if len(prios) > 1:
        obs.count("several_priorities")
    if len(case["rules"]) > len(want):
        obs.count("some_excluded")
    obs.sample({"config": files, "order": names})


if __name__ == "__main__":
    core.main("C02", gen, run, (5000, 150000),
              "random configurations of all rule types with 1/4/invalid scores, priorities, tflags "
              "and option settings, scanned once or twice; non-trivial = more than one evaluated "
              "rule, distinct by evaluation order and effective scores",
              require={"scans": 1000, "probe_logs": 200, "several_priorities": 300,
                       "some_excluded": 500})
