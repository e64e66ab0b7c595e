"""C13: a scan in any history equals the scan in a fresh process; rules do not influence each other."""
import json
import random
from vh import core, everything, mailgen, oah, world

OPTS = ["ignore_received_spf_header 1", "use_newest_received_spf_header 1", "freemail_max_body_emails 2",
        "freemail_max_body_freemails 1", "freemail_skip_bulk_envfrom 0", "freemail_add_describe_email 0",
        "skip_rbl_checks 1", "dns_available no", "ok_locales all", "ok_locales ja ru", "ok_languages de fr",
        "report_safe 0", "report_safe 2", "required_score 1", "freemail_domains *.example bad!domain",
        "clear_report_template", "shortcircuit HDR_SUBJ on", "shortcircuit TXT_A spam", "blacklist_from *@gmail.com",
        "adsp_override dkim.example unknown", "adsp_override example.com nxdomain", "unwhitelist_from_dkim *@dkim.example",
        "dns_query_restriction deny test", "trusted_networks 192.0.2.0/24", "originating_ip_headers X-Foo",
        "envelope_sender_header X-Sender", "util_rb_2tld co.uk", "lock_method flock"]
NAMES = [n for n, _ in everything.rules()]
KIND = dict((n, line.split("eval:")[-1] if "eval:" in line else line.split(None, 2)[0])
            for n, line in everything.rules())
# "unknown" is documented as: no other practice matched; it is defined by the rules run before it
ORDERED = ()


def gen(rng, i, tier):
    n = rng.choice([2, 3, 3, 4])
    msgs = []
    for _ in range(n):
        raw = mailgen.message(rng)
        if rng.random() < .1:
            raw = mailgen.mutate(rng, raw)
        msgs.append(raw.decode("latin-1"))
    keep = rng.choice([1, 1, .5, .15])
    history = list(range(n)) + [rng.randrange(n) for _ in range(n)]
    rng.shuffle(history)
    return {"msgs": msgs, "history": history, "skip": [x for x in NAMES if rng.random() > keep],
            "opts": rng.sample(OPTS, rng.choice([0, 0, 2, 5])), "order": rng.random() < .5,
            "seed": rng.randrange(1 << 30), "alone": rng.choice([6, 12]), "lazy": rng.random() < .7,
            "again": rng.choice([1, 2])}


def diff(a, b):
    """(mechanism, text) of the first difference of two outcomes."""
    if a["hits"] != b["hits"]:
        d = sorted(set(a["hits"]) ^ set(b["hits"]))
        return "hit:%s" % KIND.get(d[0], d[0]), "%s: hits differ in %r" % (d[0], d)
    for k in ("descriptions", "checked", "tags", "score", "report", "message", "sender", "uris"):
        if a[k] != b[k]:
            if isinstance(a[k], list):
                d = [x for x in a[k] if x not in b[k]], [x for x in b[k] if x not in a[k]]
                return k, "%s: %.300r instead of %.300r" % (k, d[0], d[1])
            return k, "%s: %.700r instead of %.700r" % (k, a[k], b[k])
    return None


def load(case, order=None):
    opts = [o for o in case["opts"]]
    if order is not None:
        # stopping at a rule makes the result depend on the order by design
        opts = [o for o in opts if not o.startswith("shortcircuit ")]
    return oah.load(everything.config(opts, set(case["skip"]), order=order))[0]


def body(case):
    """Runs in a process of its own; returns [(mech, text)], counts."""
    out, counts = [], {}

    def count(k, n=1):
        counts[k] = counts.get(k, 0) + n
    oah.oa.config.LAZY_MODE = case["lazy"]
    rs = load(case)
    raws = [world.text_of(m.encode("latin-1")) for m in case["msgs"]]
    rng = random.Random(case["seed"])
    fresh = []
    for raw in raws:
        st, res = world.child(lambda: world.outcome(rs, oah.scan(rs, raw)))
        if st != "ok":
            return [("fresh-scan-" + st, res)], counts
        fresh.append(res)
        count("fresh_scans")
        count("fresh_hits", len(res["hits"]))
    for pos, idx in enumerate(case["history"]):
        msg = oah.oa.message.Message(rs.ctxt, raws[idx])
        for again in range(case["again"]):
            rs.match(msg)
            got = world.outcome(rs, msg)
            d = diff(got, fresh[idx])
            count("rescans" if again else "scans_in_history")
            if d:
                out.append((("rescan:" if again else "history:") + d[0], "message %d at position %d of %r: %s" % (
                    idx, pos, case["history"], d[1])))
            msg.clear_matches()
    # one rule on its own
    stop = any(o.startswith("shortcircuit ") for o in case["opts"])
    idx = rng.randrange(len(raws))
    if not stop:
        names = [n for n in fresh[idx]["checked"]]
        pick = rng.sample(names, min(case["alone"], len(names)))
        pick += rng.sample(fresh[idx]["hits"], min(case["alone"], len(fresh[idx]["hits"])))

        def alone():
            res = []
            for name in pick:
                msg = oah.oa.message.Message(rs.ctxt, raws[idx])
                try:
                    hit = rs.get_rule(name).match(msg)
                except Exception:
                    hit = False
                res.append((name, bool(hit) or isinstance(hit, str)))
            return res
        st, res = world.child(alone)
        if st != "ok":
            out.append(("alone-" + st, res))
            res = []
        for name, hit in res:
            count("rules_alone")
            if hit != (name in fresh[idx]["hits"]):
                out.append(("alone:" + KIND.get(name, name), "%s alone is %r, with the other rules %r" % (
                    name, hit, not hit)))
    if case["order"]:
        order = list(range(len(NAMES)))
        rng.shuffle(order)

        def ordered(o):
            r = load(case, o)
            return [world.outcome(r, oah.scan(r, raw)) for raw in raws]
        one, two = world.child(lambda: ordered(list(range(len(NAMES))))), world.child(lambda: ordered(order))
        if one[0] == "ok" and two[0] == "ok":
            for idx, (a, b) in enumerate(zip(two[1], one[1])):
                count("orders")
                for k in ("hits", "score"):
                    if a[k] != b[k]:
                        d = diff(a, b)
                        out.append(("order:" + d[0], "message %d: %s" % (idx, d[1])))
                        break
        else:
            out.append(("order-" + (one[0] if one[0] != "ok" else two[0]), one[1] if one[0] != "ok" else two[1]))
    return out, counts


def run(case, obs):
    st, res = world.child(lambda: body(case), 300)
    if st == "timeout":
        obs.inconclusive.append(("child timeout", case))
        return
    if st != "ok":
        obs.violation("scan-" + st, res)
        return
    out, counts = res
    for mech, text in out:
        obs.violation(mech, text)
    for k, n in counts.items():
        obs.count(k, n)
    obs.nontrivial(json.dumps(case["msgs"]), tuple(case["history"]), tuple(case["skip"]))
    obs.sample({"history": case["history"], "rules": len(NAMES) - len(case["skip"]), "opts": case["opts"],
                "message": case["msgs"][0][:400]}, 2)


def init(shard):
    world.install()


if __name__ == "__main__":
    core.main("C13", gen, run, (64, 800),
              "random configurations over all bundled plugins and eval functions with histories of 4-8 "
              "scans of 2-4 rich messages in one process, each compared with the scan in a forked process "
              "that never scanned anything; single rules and permuted rule orders are compared with the "
              "full scan; every case is distinct by messages, history and rules",
              require={"fresh_scans": 90, "scans_in_history": 180, "rules_alone": 250, "orders": 35,
                       "rescans": 60, "fresh_hits": 600}, init=init, case_timeout=320)
