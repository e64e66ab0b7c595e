"""C21: automatic learning, against the documented arithmetic over the hits of each message."""
import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vh import core, daemon, oah, world
import oa
import vhlearn
import vhprobe

WORDS = ["alpha", "bravo", "charlie", "delta", "echo", "foxtrot", "golf", "hotel"]
SCORES = [-6, -2, -1, -0.5, -0.125, 0.125, 0.5, 1, 1.5, 2, 3, 3.5, 6, 12]
FLAGS = ["noautolearn", "userconf", "learn", "net", "nice", "autolearn_force", "multiple"]
RAW = "From: a@example.com\nTo: b@example.com\nSubject: %s\nX-Word: %s\n\nend %s\n"


def gen(rng, i, tier):
    rules = []
    count = rng.choice([2, 4, 6, 9])
    for k in range(count):
        kind = rng.choice(["header", "body", "body", "header", "uri", "meta", "evalbody", "evalheader"])
        r = {"name": "R%d" % k, "kind": kind, "word": rng.choice(WORDS), "score": rng.choice(SCORES)}
        if kind == "meta":
            if not rules:
                r["kind"] = "body"
            else:
                r["refs"] = rng.sample([x["name"] for x in rules], min(len(rules), rng.choice([1, 2])))
        if rng.random() < .4:
            r["tflags"] = rng.sample(FLAGS, rng.choice([1, 1, 2]))
            if "learn" in r["tflags"] and "autolearn_force" in r["tflags"]:
                r["tflags"].remove("autolearn_force")
        rules.append(r)
    # the classification of Bayes
    for name in ("BAYES_00", "BAYES_99"):
        if rng.random() < .5:
            rules.append({"name": name, "kind": "evalbody", "word": "", "score": rng.choice([-2, -0.5, 0.5, 3]),
                          "tflags": rng.choice([["learn"], ["learn"], ["noautolearn"]])})
    if rng.random() < .2:
        rules.append({"name": "ZERO", "kind": "body", "word": rng.choice(WORDS), "score": 0, "tflags": ["autolearn_force"]})
    circuit = rng.choice(rules)["name"] if rng.random() < .15 else None
    msgs = []
    for _ in range(rng.choice([2, 4, 6])):
        p = rng.choice([.15, .4, .7, 1])
        msgs.append({"header": [w for w in WORDS if rng.random() < p], "body": [w for w in WORDS if rng.random() < p],
                     "uri": [w for w in WORDS if rng.random() < p],
                     "truth": dict((r["name"], rng.random() < p) for r in rules)})
    return {"rules": rules, "msgs": msgs, "required": rng.choice([5, 0.125, 2, 6, 12, 3.5]),
            "spam": rng.choice([None, 12, 3, 6, 2, 6.5]), "nonspam": rng.choice([None, 0.125, 0, -1, 2, 1.5]),
            "on_error": rng.choice([None, 0, 1, 1]), "learner": rng.random() < .9, "auto": rng.random() < .92,
            "circuit": circuit, "how": rng.choice(["library", "library", "library", "daemon"]),
            "tune": rng.choice([None, "spam", "nonspam", "required"]), "seed": rng.randrange(1 << 30)}


def config(case):
    out = ["loadplugin vhprobe.Probe"]
    plugins = []
    if case["auto"]:
        plugins.append("loadplugin oa.plugins.auto_learn_threshold.AutoLearnThreshold")
    if case["learner"]:
        plugins.append("loadplugin vhlearn.BayesPlugin")
    if case["circuit"]:
        plugins.append("loadplugin oa.plugins.short_circuit.ShortCircuit")
    random.Random(case["seed"]).shuffle(plugins)
    out += plugins
    for r in case["rules"]:
        n, k = r["name"], r["kind"]
        if k == "header":
            out.append("header %s X-Word =~ /%s/" % (n, r["word"]))
        elif k == "body":
            out.append("body %s /%s/" % (n, r["word"]))
        elif k == "uri":
            out.append("uri %s /%s/" % (n, r["word"]))
        elif k == "meta":
            out.append("meta %s %s" % (n, " || ".join(r["refs"])))
        else:
            out.append("%s %s eval:probe('%s')" % (k[4:], n, n))
        out.append("score %s %s" % (n, r["score"]))
        if r.get("tflags"):
            out.append("tflags %s %s" % (n, " ".join(r["tflags"])))
    if case["circuit"]:
        out.append("shortcircuit %s on" % case["circuit"])
    out.append("required_score %s" % case["required"])
    if case["auto"]:
        for key, opt in (("spam", "bayes_auto_learn_threshold_spam"), ("nonspam", "bayes_auto_learn_threshold_nonspam"),
                         ("on_error", "bayes_auto_learn_on_error")):
            if case[key] is not None:
                out.append("%s %s" % (opt, case[key]))
    return "\n".join(out) + "\n"


def hits_of(case, m):
    out = {}
    for r in case["rules"]:
        k = r["kind"]
        if k == "header":
            v = r["word"] in m["header"]
        elif k == "body":
            v = r["word"] in m["body"] + m["uri"]
        elif k == "uri":
            v = r["word"] in m["uri"]
        elif k == "meta":
            v = any(out[x] for x in r["refs"])
        else:
            v = m["truth"][r["name"]]
        out[r["name"]] = v
    return out


def figures(case, hits):
    points = header = body = learn = 0
    forced = False
    by = dict((r["name"], r) for r in case["rules"])
    for name in hits:
        r = by[name]
        flags = r.get("tflags", [])
        if not r["score"] or "noautolearn" in flags or "userconf" in flags:
            continue
        if r["kind"] in ("header", "evalheader"):
            header += r["score"]
        elif r["kind"] in ("body", "uri", "evalbody"):
            body += r["score"]
        elif "net" not in flags:
            header += r["score"]
            body += r["score"]
        if "learn" in flags:
            learn += r["score"]
            continue
        forced = forced or "autolearn_force" in flags
        points += r["score"]
    return points, header, body, learn, forced


def decision(case, hits, score):
    """spam, ham or None, and why not"""
    points, header, body, learn, forced = figures(case, hits)
    least = -99 if forced else 3
    spam = 12.0 if case["spam"] is None else case["spam"]
    nonspam = 0.1 if case["nonspam"] is None else case["nonspam"]
    if not case["auto"] or not case["learner"]:
        return None, "off"
    if points >= spam:
        if header < least:
            return None, "spam-header"
        if body < least:
            return None, "spam-body"
        if learn < -1:
            return None, "spam-learn"
        if score <= case["required"]:
            return None, "spam-required"
        if case["on_error"] and "BAYES_99" in hits:
            return None, "spam-agrees"
        return "spam", "forced" if forced else ""
    if points < nonspam:
        if learn > 1:
            return None, "ham-learn"
        if score >= case["required"]:
            return None, "ham-required"
        if case["on_error"] and "BAYES_00" in hits:
            return None, "ham-agrees"
        return "ham", ""
    return None, "between"


def run(case, obs):
    by = dict((r["name"], r) for r in case["rules"])
    if case["tune"]:
        # a threshold exactly at what one of the messages has
        m = case["msgs"][case["seed"] % len(case["msgs"])]
        hits = [n for n, v in hits_of(case, m).items() if v]
        value = figures(case, hits)[0] if case["tune"] != "required" else sum(by[h]["score"] for h in hits)
        if case["tune"] == "spam" and (case["nonspam"] or 0.1) < value or \
                case["tune"] == "nonspam" and value < (case["spam"] or 12) or case["tune"] == "required":
            case = dict(case, **{case["tune"]: value})
    with oah.TempDir() as d:
        srv = None
        if case["how"] == "daemon":
            oah.write(os.path.join(d, "a.cf"), config(case) + "report _SCORE_\n")
            srv = daemon.InProc(d)
            def scan(raw):
                resp = daemon.Response(srv.request(daemon.req("SYMBOLS", raw)))
                return [n for n in resp.body.decode().strip().split(",") if n], None
        else:
            rs, _ = oah.load(config(case))
            def scan(raw):
                msg = oah.scan(rs, raw)
                return [n for n, v in msg.rules_checked.items() if v], msg
        try:
            for n, m in enumerate(case["msgs"]):
                raw = RAW % ("x", " ".join(m["header"]), " ".join(m["body"] + ["http://%s.example.com/" % w for w in m["uri"]]))
                vhprobe.reset(m["truth"])
                del vhlearn.LEARNED[:]
                hits, msg = scan(raw)
                learned = list(vhlearn.LEARNED)
                expected = [k for k, v in hits_of(case, m).items() if v and by[k]["score"]]
                if case["circuit"]:
                    obs.expect(set(hits) <= set(expected), "hits", "message %d: %s hit instead of %s", n, hits, expected)
                else:
                    obs.expect(sorted(hits) == sorted(expected), "hits", "message %d: %s hit instead of %s", n, hits, expected)
                score = sum(by[h]["score"] for h in hits)
                want, why = decision(case, hits, score)
                obs.count("messages")
                obs.count("decided:%s" % (want or why))
                if why == "forced":
                    obs.count("forced")
                got = [x[0] for x in learned]
                obs.expect(got == ([want] if want else []), "learned:%s" % (want or "none"),
                           "message %d of %d was learned as %s, not as %s (%s): points, header, body, learn, forced are %s, "
                           "score %s of %s, hits %s", n, len(case["msgs"]), got, want, why, figures(case, hits), score,
                           case["required"], hits)
                if msg is not None and learned:
                    obs.expect(learned[0][1] == id(msg) and learned[0][2] == msg.score, "message",
                               "another message was learned, or not after its final score: %s", learned)
        finally:
            if srv:
                srv.close()
    obs.nontrivial(case["how"], [(r["kind"], r.get("tflags"), r["score"]) for r in case["rules"]], case["required"],
                   case["spam"], case["nonspam"])
    obs.sample(config(case), 2)


def init(shard):
    world.install()


if __name__ == "__main__":
    core.main("C21", gen, run, (2000, 60000),
              "2-11 rules of every kind with tflags, hit patterns, thresholds (also exactly met), Bayes verdicts, "
              "short-circuits; 2-6 messages per rule set; a case is one rule set with its messages",
              require={"messages": 5000, "decided:spam": 250, "decided:ham": 250, "decided:between": 200,
                       "decided:spam-header": 30, "decided:spam-body": 30, "decided:spam-learn": 15,
                       "decided:spam-required": 30, "decided:ham-learn": 5, "decided:ham-required": 15,
                       "decided:spam-agrees": 15, "decided:ham-agrees": 15, "forced": 40, "decided:off": 100},
              init=init, budget=(200, 800))
