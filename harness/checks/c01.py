"""C01: score conservation and the verdict threshold, against an independent sum."""
import email
import os

from vh import core, oah, model, daemon
import vhprobe

WORDS = ["alpha", "bravo", "charlie", "delta", "echo", "foxtrot"]
SCORES = [-100, -6.5, -5, -2.25, -1, -0.5, -0.25, 0.125, 0.25, 0.5, 1, 1.5, 2, 2.5, 4.75, 5, 7.25, 100]
# exact in binary, so that sums can lie on the threshold exactly
FINE = [0.0009765625, 1.00048828125, 4.9990234375, -0.00006103515625, 2.000030517578125]
DECIMAL = [0.1, 0.10007, 3.14159, 1.23456789, 0.0001, -0.7001, 1e-7, 12345.678901]
TRUTHS = [True, False, 1, 0, None, "a description", 3, [], ["x"], "other text", -1]
MSG = "From: a@example.com\nTo: b@example.com\nSubject: %s\n\n%s\n"


def gen(rng, i, tier):
    rules = []
    scale = rng.choice(["coarse", "fine", "fine", "decimal"])
    pool = SCORES + (FINE * 4 if scale == "fine" else DECIMAL * 3 if scale == "decimal" else [])
    for k in range(rng.randint(0, 9)):
        kind = rng.choice(["probe", "probe", "probe", "body", "header", "meta", "raise", "zero",
                           "hidden", "uri", "rawbody", "full"])
        name = ("__" if kind == "hidden" else "") + "R%d_%s" % (k, kind.upper())
        r = {"name": name, "kind": kind}
        mode = rng.random()
        if kind == "zero":
            r["score"] = [0]
        elif mode < 0.15:
            r["score"] = None
        elif mode < 0.3:
            r["score"] = [rng.choice(pool) for _ in range(4)]
        else:
            r["score"] = [rng.choice(pool)]
        if kind in ("probe", "zero", "hidden"):
            r["truth"] = rng.choice(TRUTHS)
            r["truth2"] = rng.choice(TRUTHS)
        elif kind in ("body", "rawbody", "full", "header", "uri"):
            r["word"] = rng.choice(WORDS)
        elif kind == "meta":
            prior = [x["name"] for x in rules if x["kind"] != "raise"]
            if not prior:
                r["kind"] = "raise"
            else:
                r["refs"] = [rng.choice(prior) for _ in range(rng.randint(1, 3))]
        if rng.random() < 0.2:
            r["priority"] = rng.randint(-3, 3)
        rules.append(r)
    return {"rules": rules,
            "subject": [w for w in WORDS if rng.random() < 0.4],
            "body": [w for w in WORDS if rng.random() < 0.4],
            "uris": [w for w in WORDS if rng.random() < 0.3],
            "use_bayes": rng.random() < 0.5, "use_network": rng.random() < 0.5,
            "report_safe": rng.choice([0, 1, 2]),
            "delta": rng.choice(["above", "below", "fixed"] if scale == "decimal" else
                                ["eq", "eq", "above", "below", "fixed", "near"]), "scale": scale,
            "fixed": rng.choice([-3, -0.5, 0, 0.5, 3, 5, 6.25, 40]),
            "daemon": rng.random() < 0.25}


def truthy(v):
    return True if isinstance(v, str) else bool(v)


def expected(case, second=False):
    """Ordered {name: hit}, effective scores, computed without the engine."""
    res, eff = {}, {}
    for r in case["rules"]:
        n, k = r["name"], r["kind"]
        eff[n] = model.effective_score(n, r["score"], (), case["use_bayes"], case["use_network"])
        if k in ("probe", "zero", "hidden"):
            res[n] = truthy(r["truth2" if second else "truth"])
        elif k == "body":
            res[n] = r["word"] in case["subject"] + case["body"]
        elif k == "rawbody":
            res[n] = r["word"] in case["body"] + case["uris"]
        elif k == "full":
            res[n] = r["word"] in case["subject"] + case["body"] + case["uris"]
        elif k == "header":
            res[n] = r["word"] in case["subject"]
        elif k == "uri":
            res[n] = r["word"] in case["uris"]
        elif k == "raise":
            res[n] = False
        elif k == "meta":
            res[n] = any(res[x] for x in r["refs"])
    # body rules also see the text of URIs
    for r in case["rules"]:
        if r["kind"] == "body" and r["word"] in case["uris"]:
            res[r["name"]] = True
    for r in case["rules"]:
        if r["kind"] == "meta":
            res[r["name"]] = any(res[x] for x in r["refs"])
    hits = [n for n in res if res[n] and eff[n] != 0]
    return res, eff, hits, sum(eff[n] for n in hits)


def config(case, required):
    L = ["loadplugin vhprobe.Probe",
         "use_bayes %s" % case["use_bayes"], "use_network %s" % case["use_network"],
         "report_safe %d" % case["report_safe"], "required_score %.20f" % required,
         "report S=_SCORE_ R=_REQD_ Y=_YESNO_ C=_YESNOCAPS_ T=_TESTS_",
         "unsafe_report unsafe",
         "add_header all Status _YESNO_ _YESNOCAPS_ _SCORE_ _REQD_ _TESTS_",
         "add_header spam Flag isspam", "add_header ham Flag isham"]
    for r in case["rules"]:
        n, k = r["name"], r["kind"]
        if k in ("probe", "zero", "hidden"):
            L.append("body %s eval:probe('%s')" % (n, n))
        elif k == "raise":
            L.append("body %s eval:probe_raise('%s')" % (n, n))
        elif k in ("body", "rawbody", "full", "uri"):
            L.append("%s %s /%s/" % (k, n, r["word"]))
        elif k == "header":
            L.append("header %s Subject =~ /%s/" % (n, r["word"]))
        elif k == "meta":
            L.append("meta %s %s" % (n, " || ".join(r["refs"])))
        if r["score"] is not None:
            L.append("score %s %s" % (n, " ".join("%.20f" % s for s in r["score"])))
        if "priority" in r:
            L.append("priority %s %d" % (n, r["priority"]))
    return "\n".join(L) + "\n"


def message(case):
    body = " ".join(case["body"]) + "\n" + "\n".join("http://%s.example.com/" % w
                                                     for w in case["uris"])
    return MSG % (" ".join(case["subject"]), body)


def check_scan(case, rs, msg, exp, required, obs, tag):
    res, eff, hits, total = exp
    got = [n for n, r in msg.rules_checked.items() if r]
    obs.expect(sorted(got) == sorted(hits), "hits-" + tag,
               "hits %r expected %r", sorted(got), sorted(hits))
    obs.expect(abs(msg.score - total) < 1e-9, "sum-" + tag,
               "score %r is not the sum %r of %r", msg.score, total, [(h, eff[h]) for h in hits])
    obs.count("scans")
    obs.count("hits_summed", len(hits))
    spam = total >= required
    obs.count("spam" if spam else "ham")
    if total == required:
        obs.count("exact_boundary")
    rep = rs.get_report(msg)
    tests = ",".join(hits) if hits else "none"
    y = "Yes" if spam else "No"
    # TESTS order = evaluation order; compare as a set
    head, _, t = rep.partition("T=")
    if case["scale"] == "decimal" and min(abs(abs(x) * 10 % 1 - .5) for x in (total, required)) < 1e-6:
        # the rounding depends on the order of the additions
        return spam
    want_head = "S=%0.1f R=%0.1f Y=%s C=%s " % (total, required, y, y.upper())
    obs.expect(head == want_head, "report-verdict-" + tag, "report %r, expected %r", head, want_head)
    obs.expect(sorted(t.strip().split(",")) == sorted(tests.split(",")), "report-tests-" + tag,
               "report lists %r expected %r", t, tests)
    adj = rs.get_adjusted_message(msg)
    new = email.message_from_string(adj)
    st = (new["X-Spam-Status"] or "").split()
    obs.expect(st[:4] == [y, y.upper(), "%0.1f" % total, "%0.1f" % required],
               "header-verdict-" + tag, "X-Spam-Status %r for score %r / %r", st, total, required)
    obs.expect(new.get_all("X-Spam-Flag") == ["isspam" if spam else "isham"],
               "header-class-" + tag, "X-Spam-Flag %r, spam=%r", new.get_all("X-Spam-Flag"), spam)
    wrapped = new.get_content_type() == "multipart/mixed"
    obs.expect(wrapped == (spam and case["report_safe"] != 0), "wrap-verdict-" + tag,
               "wrapped=%r spam=%r report_safe=%r", wrapped, spam, case["report_safe"])
    return spam


def run(case, obs):
    exp = expected(case)
    total = exp[3]
    required = {"eq": total, "above": total - 0.25, "below": total + 0.25,
                "fixed": case["fixed"], "near": total + 0.00006103515625}[case["delta"]]
    required = float(required)
    cf = config(case, required)
    vhprobe.reset(dict((r["name"], r["truth"]) for r in case["rules"] if "truth" in r))
    raw = message(case)
    rs, _ = oah.load(cf)
    msg = oah.scan(rs, raw)
    check_scan(case, rs, msg, exp, required, obs, "first")
    # re-scan of the same object: same facts
    msg.clear_matches()
    rs.match(msg)
    check_scan(case, rs, msg, exp, required, obs, "again")
    # re-scan when the world changed: the verdict follows the new outcome
    exp2 = expected(case, second=True)
    vhprobe.reset(dict((r["name"], r["truth2"]) for r in case["rules"] if "truth2" in r))
    msg.clear_matches()
    rs.match(msg)
    check_scan(case, rs, msg, exp2, required, obs, "changed")
    if exp2[3] != total:
        obs.count("rescan_changed_score")
    if case["daemon"]:
        vhprobe.reset(dict((r["name"], r["truth"]) for r in case["rules"] if "truth" in r))
        with oah.TempDir() as d:
            oah.write(os.path.join(d, "a.cf"), cf)
            srv = daemon.InProc(d)
            try:
                for cmd in ("CHECK", "SYMBOLS", "REPORT_IFSPAM", "PROCESS"):
                    r = daemon.Response(srv.request(daemon.req(cmd, raw)))
                    spam = total >= required
                    obs.count("daemon_responses")
                    if not obs.expect(r.ok and r.spam is not None, "daemon-noverdict",
                                      "%s gave %r", cmd, r.raw[:200]):
                        continue
                    tie = abs(abs(total) * 10 % 1 - .5) < 1e-6
                    obs.expect(r.spam == spam and (tie or r.score == "%.1f" % total) and
                               float(r.required) == required, "daemon-verdict",
                               "%s: Spam: %s ; %s / %s, expected %s %r / %r", cmd, r.spam,
                               r.score, r.required, spam, total, required)
                    if cmd == "SYMBOLS":
                        got = sorted(x for x in r.body.decode().split(",") if x)
                        obs.expect(got == sorted(exp[2]), "daemon-symbols", "%r != %r", got,
                                   sorted(exp[2]))
                    if cmd == "REPORT_IFSPAM":
                        obs.expect(bool(r.body) == spam, "daemon-ifspam",
                                   "report sent=%r for spam=%r", bool(r.body), spam)
            finally:
                srv.close()
    if exp[2]:
        obs.nontrivial(sorted(exp[2]), total, required)
    obs.sample({"config": cf.split("\n")[10:], "score": total, "required": required,
                "hits": exp[2]})


if __name__ == "__main__":
    core.main("C01", gen, run, (2400, 40000),
              "random rule sets (all rule types, positive/negative/zero scores, coarse, with up to 16 binary places or decimal) scanned "
              "three times each (fresh, re-scan, re-scan with changed outcomes); non-trivial = at "
              "least one rule hit, distinct by hit set, sum and threshold",
              require={"scans": 500, "spam": 100, "ham": 100, "exact_boundary": 50,
                       "rescan_changed_score": 50, "daemon_responses": 50, "hits_summed": 300})
