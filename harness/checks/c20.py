"""C20: short-circuiting, against a simulation of the evaluation order of the plain configuration."""
import os
import random
import re
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vh import core, oah, world
import oa
import vhprobe

SCORES = [-5, -1.5, -0.25, 0.125, 0.5, 1, 2.25, 4, 7.5]
TRUTHS = [True, False, False, False, 1, 0, None, "a text", 3]
RAW = "From: a@example.com\nTo: b@example.com\nSubject: s\n\n%s\n"
WORDS = ["alpha", "bravo", "charlie"]


def gen(rng, i, tier):
    rules = []
    for k in range(rng.choice([2, 4, 7, 10])):
        name = "R%d" % k
        kind = rng.choice(["probe"] * 5 + ["meta", "meta", "body", "raise", "hidden", "zero"])
        r = {"name": name, "kind": kind, "score": rng.choice(SCORES), "priority": rng.choice([0, 0, 0, 1, -1, 2, 50, -100])}
        if kind == "hidden":
            r["name"] = "__" + name
        if kind == "meta":
            refs = [x["name"] for x in rules if x["kind"] in ("probe", "hidden", "meta")]
            if not refs:
                r["kind"] = "probe"
            else:
                r["refs"] = rng.sample(refs, min(len(refs), rng.choice([1, 2, 3])))
                r["least"] = rng.randrange(0, len(r["refs"]))
        if kind == "body":
            r["word"] = rng.choice(WORDS)
        if rng.random() < .3:
            r["describe"] = "about %s" % name
        rules.append(r)
    rng.shuffle(rules)
    lines = []
    for r in rules:
        if r["kind"] in ("hidden", "zero"):
            continue
        if rng.random() < .45:
            for _ in range(rng.choice([1, 1, 1, 2])):
                lines.append("shortcircuit %s%s%s" % (r["name"], rng.choice([" ", "  ", "\t"]),
                                                       rng.choice(["on", "spam", "ham", "off", "on", "spam", "ham"])))
    extra = [rng.choice(["shortcircuit NOSUCH on", "shortcircuit R0", "shortcircuit R1 maybe", "shortcircuit"])
             for _ in range(rng.choice([0, 0, 1]))]
    lines += extra
    rng.shuffle(lines)
    if rng.random() < .6:
        lines.append("shortcircuit_spam_score %s" % rng.choice([1, 33.5, 100, 0.25, 1000, 0]))
    if rng.random() < .6:
        lines.append("shortcircuit_ham_score %s" % rng.choice([-1, -20.5, -100, -1000, 0]))
    used = set(x for r in rules for x in r.get("refs", ()))
    msgs = []
    for _ in range(rng.choice([1, 2, 4])):
        msgs.append({"words": [w for w in WORDS if rng.random() < .4],
                     # (metas calculate with the values of their rules)
                     "truth": dict((r["name"], rng.choice([True, False, False] if r["name"] in used else TRUTHS))
                                   for r in rules)})
    return {"rules": rules, "lines": lines, "msgs": msgs, "where": rng.choice(["before", "after", "mixed"]),
            "load_last": rng.random() < .3, "report_safe": rng.choice([0, 1]), "seed": rng.randrange(1 << 30)}


def rule_lines(r):
    n, k = r["name"], r["kind"]
    out = []
    if k in ("probe", "hidden", "zero"):
        out.append("body %s eval:probe('%s')" % (n, n))
    elif k == "raise":
        out.append("body %s eval:probe_raise('%s')" % (n, n))
    elif k == "body":
        out.append("body %s /%s/" % (n, r["word"]))
    else:
        out.append("meta %s (%s) > %d" % (n, " + ".join(r["refs"]), r["least"]))
    if k != "hidden":
        out.append("score %s %s" % (n, 0 if k == "zero" else r["score"]))
    if r["priority"]:
        out.append("priority %s %d" % (n, r["priority"]))
    if "describe" in r:
        out.append("describe %s %s" % (n, r["describe"]))
    return out


def config(case, circuits=True):
    rng = random.Random(case["seed"])
    head = ["loadplugin vhprobe.Probe", "loadplugin oa.plugins.short_circuit.ShortCircuit"]
    if case["load_last"]:
        head.reverse()
    head += ["required_score 5", "report_safe %d" % case["report_safe"],
             "report S=_SCORE_ T=_TESTS_ SC=_SCRULE_/_SCTYPE_/_SC_", "report _SUMMARY_",
             "add_header all Circuit _SC_", "add_header all Tests _TESTS_"]
    rules = [l for r in case["rules"] for l in rule_lines(r)]
    lines = list(case["lines"]) if circuits else []
    if case["where"] == "before":
        body = lines + rules
    elif case["where"] == "after":
        body = rules + lines
    else:
        # keeping the order of either
        body = []
        a, b = list(rules), list(lines)
        while a or b:
            body.append((a if a and (not b or rng.random() < .7) else b).pop(0))
    return "\n".join(head + body) + "\n"


def types(case):
    """{rule: type}, the last line about a rule counts; and the two scores."""
    out, spam, ham = {}, 100.0, -100.0
    for line in case["lines"]:
        w = line.split()
        if w[0] == "shortcircuit_spam_score":
            spam = float(w[1])
        elif w[0] == "shortcircuit_ham_score":
            ham = float(w[1])
        elif len(w) == 3 and w[2] in ("on", "off", "spam", "ham"):
            out[w[1]] = w[2]
    return dict((k, v) for k, v in out.items() if v != "off"), spam, ham


class Stop(Exception):
    pass


def simulate(case, order, m, sc):
    """(hits in order, evaluated names, stopping rule or None) when the rules run in that order."""
    by = dict((r["name"], r) for r in case["rules"])
    hits, ran = [], []

    def value(name):
        r = by[name]
        k = r["kind"]
        if k == "meta":
            res = sum(bool(value(x)) for x in r["refs"]) > r["least"]
        elif k == "body":
            res = r["word"] in m["words"]
        else:
            ran.append(name)
            res = k != "raise" and (True if isinstance(m["truth"][name], str) else bool(m["truth"][name]))
        if res and name in sc:
            raise Stop(name)
        return res
    try:
        for name in order:
            if value(name):
                hits.append(name)
    except Stop as e:
        return hits, ran, e.args[0]
    return hits, ran, None


def scan(rs, m):
    vhprobe.reset(m["truth"])
    msg = oa.message.Message(rs.ctxt, RAW % " ".join(m["words"] + ["end"]))
    rs.match(msg)
    log = list(vhprobe.LOG)
    return msg, log


def view(rs, msg):
    return (msg.score, sorted(oah.hits(msg)), rs.get_report(msg), world.clean(rs.get_adjusted_message(msg)))


def summary(report, name):
    """The lines of the summary about a rule."""
    m = re.search(r"(?m)^\s*\*?\s*-?[0-9.]+ %s\b.*(?:\n {20,}.*)*" % name, report)
    return m and m.group(0).strip()


def run(case, obs):
    rs, _ = oah.load(config(case))
    plain, _ = oah.load(config(case, False))
    sc, spam, ham = types(case)
    by = dict((r["name"], r) for r in case["rules"])
    for n, m in enumerate(case["msgs"]):
        pmsg, plog = scan(plain, m)
        order = list(pmsg.rules_checked)
        phits, _, none = simulate(case, order, m, {})
        obs.expect(none is None and sorted(oah.hits(pmsg)) == sorted(phits), "plain",
                   "without short-circuits %s hit, not %s", sorted(oah.hits(pmsg)), phits)
        hits, ran, stop = simulate(case, order, m, sc)
        msg, log = scan(rs, m)
        obs.count("messages")
        evals = [e[1] for e in log if e[0] == "eval"]
        events = [e[0] for e in log]
        for ev in ("check_end", "auto_learn"):
            obs.expect(events.count(ev) == 1, "end", "message %d: %s ran %d times after the short-circuit of %s",
                       n, ev, events.count(ev), stop)
        tags = "none/off/no"
        want = list(hits)
        score = sum(by[h]["score"] for h in hits)
        if stop is None:
            obs.count("without")
            obs.expect(evals == [e[1] for e in plog if e[0] == "eval"], "plain-log",
                       "message %d: nothing short-circuits, but %s ran instead of %s", n, evals, plog)
        else:
            obs.count("type:" + sc[stop])
            obs.count("stopped_by:" + by[stop]["kind"])
            want.append(stop)
            score += by[stop]["score"] + {"on": 0, "spam": spam, "ham": ham}[sc[stop]]
            tags = "%s/%s/%s (%s)" % (stop, sc[stop], stop, sc[stop])
            late = set(evals) - set(ran)
            obs.expect(not late, "late", "message %d: %s were evaluated after the short-circuit of %s", n,
                       sorted(late), stop)
            obs.count("rules_skipped", len(set(order)) - len(msg.rules_checked))
            obs.expect(set(msg.rules_checked) <= set(order[:order.index(stop) + 1]) | set([stop]), "late-checked",
                       "message %d: checked are %s after the short-circuit of %s", n, list(msg.rules_checked), stop)
        obs.expect(set(ran) <= set(evals), "missing", "message %d: %s were not evaluated", n,
                   sorted(set(ran) - set(evals)))
        obs.expect(abs(msg.score - score) < 1e-9, "score", "message %d: the score is %r, not %r (hits %s, stopped by %s %s)",
                   n, msg.score, score, hits, stop, stop and sc[stop])
        obs.expect(sorted(oah.hits(msg)) == sorted(want), "hits", "message %d: the hits are %s, not %s", n,
                   sorted(oah.hits(msg)), sorted(want))
        report, preport = rs.get_report(msg), plain.get_report(pmsg)
        adjusted = rs.get_adjusted_message(msg)
        obs.expect("SC=%s\n" % tags in report, "tags", "message %d: tags %s are not in %r", n, tags, report)
        shown = re.search(r"T=(\S+)", report).group(1)
        obs.expect(sorted(shown.split(",")) == sorted(want or ["none"]), "report", "message %d: the report lists %s, not %s",
                   n, shown, want)
        for h in want:
            obs.expect(re.search(r"(?m)^\s*\*?\s*-?[0-9.]+ %s\b" % h, report) is not None, "summary",
                       "message %d: hit %s is not in the summary of %r", n, h, report)
            mine, other = summary(report, h), summary(preport, h)
            obs.expect(mine == other or not other, "description", "message %d: %s is reported as %r instead of %r", n, h,
                       mine, other)
        obs.expect("X-Spam-Circuit: %s\n" % tags.split("/")[2] in adjusted, "header", "message %d: %s is not in %r", n,
                   tags, adjusted[:600])
        if stop is None and not sc:
            obs.count("same_as_plain")
            obs.expect(view(rs, msg) == view(plain, pmsg), "differs", "message %d: %r differs from the plain %r", n,
                       view(rs, msg), view(plain, pmsg))
    obs.nontrivial(sorted(sc.items()), [(r["kind"], r["priority"]) for r in case["rules"]], len(case["msgs"]))
    obs.sample({"lines": case["lines"], "rules": [(r["name"], r["kind"], r["priority"]) for r in case["rules"]]}, 3)


def init(shard):
    world.install()


if __name__ == "__main__":
    core.main("C20", gen, run, (2400, 60000),
              "2-10 rules (probes, texts, metas, failing, hidden, zero-scored) with priorities, short-circuits of "
              "every type, repeated and invalid lines, sequences of 1-4 messages on one rule set; a case is one rule "
              "set with its messages",
              require={"messages": 4000, "type:on": 300, "type:spam": 300, "type:ham": 300, "without": 500,
                       "stopped_by:meta": 80, "stopped_by:body": 80, "rules_skipped": 2000, "same_as_plain": 300},
              init=init, budget=(200, 800))
