"""C03: meta rules against an independent evaluator of the expression trees."""
from vh import core, oah
import oa.errors
import vhprobe

WORDS = ["alpha", "bravo", "charlie", "delta"]
MSG = "From: a@example.com\nSubject: %s\n\n%s\n"


# --- expression trees: ["n", name] ["!", e] ["&&", a, b] ["||", a, b] ["(", e]
#     ["cmp", op, [terms], const]   terms: [coef-or-None, name-or-(boolean)]
#     ["sum", None, [terms]]   a number; it counts as hit unless it is zero
def tree(rng, leaves, depth):
    r = rng.random()
    if depth <= 0 or r < 0.22:
        return ["n", rng.choice(leaves)]
    if r < 0.42:
        return ["!", tree(rng, leaves, depth - 1)]
    if r < 0.62:
        return ["&&", tree(rng, leaves, depth - 1), tree(rng, leaves, depth - 1)]
    if r < 0.82:
        return ["||", tree(rng, leaves, depth - 1), tree(rng, leaves, depth - 1)]
    if r < 0.9:
        return ["(", tree(rng, leaves, depth - 1)]
    terms = []
    kind = "sum" if rng.random() < 0.4 else "cmp"
    for _ in range(rng.randint(1, 4)):
        t = ["n", rng.choice(leaves)] if rng.random() < 0.7 else \
            ["(", tree(rng, leaves, depth - 1)]
        terms.append([rng.choice([None, None, None, 2, 3, -1]), t])
    if kind == "sum":
        return ["sum", None, terms]
    return ["cmp", rng.choice([">", ">=", "==", "<", "<=", "!="]), terms, rng.choice([0, 1, 1, 2, 3])]


PREC = {"||": 1, "&&": 2, "cmp": 3, "sum": 3, "!": 4, "n": 5, "(": 5}


def show(rng, t, parent=0):
    sp = lambda: rng.choice(["", " ", " ", "  "])
    k = t[0]
    if k == "n":
        s = t[1]
    elif k == "!":
        s = "!" + rng.choice(["", "", " "]) + show(rng, t[1], 4)
    elif k in ("&&", "||"):
        s = show(rng, t[1], PREC[k]) + sp() + k + sp() + show(rng, t[2], PREC[k])
    elif k == "(":
        s = "(" + sp() + show(rng, t[1], 0) + sp() + ")"
    else:
        parts = []
        for coef, x in t[2]:
            p = show(rng, x, 5)
            if coef is not None:
                p = "%d * %s" % (coef, p) if coef >= 0 else "(%d * %s)" % (coef, p)
            parts.append(p)
        if k == "sum":
            return " + ".join(parts) if not parent and rng.random() < 0.5 else "(" + " + ".join(parts) + ")"
        s = "(" + " + ".join(parts) + sp() + t[1] + sp() + str(t[3]) + ")"
        return s
    if PREC[k] < parent:
        s = "(" + s + ")"
    return s


def value(t, env):
    """The number an expression stands for; && and || give the operand that decided."""
    k = t[0]
    if k == "n":
        return int(env[t[1]])
    if k == "!":
        return 0 if value(t[1], env) else 1
    if k == "&&":
        return value(t[1], env) and value(t[2], env)
    if k == "||":
        return value(t[1], env) or value(t[2], env)
    if k == "(":
        return value(t[1], env)
    total = sum((1 if c is None else c) * value(x, env) for c, x in t[2])
    if k == "sum":
        return total
    c = t[3]
    return int({">": total > c, ">=": total >= c, "==": total == c, "<": total < c,
                "<=": total <= c, "!=": total != c}[t[1]])


def names_in(t):
    if t[0] == "n":
        return {t[1]}
    if t[0] in ("cmp", "sum"):
        out = set()
        for _, x in t[2]:
            out |= names_in(x)
        return out
    out = set()
    for x in t[1:]:
        out |= names_in(x)
    return out


def gen(rng, i, tier):
    base = []
    stems = rng.sample(["A", "AB", "A_B", "ABC", "B", "__A", "__AB", "__B", "_A", "A1", "A12", "NOT_A",
                        "AND", "OR", "A_AND_B", "MSG", "Z__", "T_X", "FROM", "IN"], rng.randint(2, 8))
    for s in stems:
        kind = rng.choice(["probe", "probe", "probe", "body", "header"])
        base.append({"name": s, "kind": kind, "word": rng.choice(WORDS),
                     "score": rng.choice([None, 1, 0, 2.5, -1])})
    leaves = [b["name"] for b in base]
    metas = []
    nm = rng.choice([1, 2, 3, 5, 8, 14])
    levels = {}
    for k in range(nm):
        name = rng.choice(["", "__"]) + "M%d%s" % (k, rng.choice(["", "_A", "A"]))
        cands = list(leaves)
        if metas and rng.random() < 0.7:
            cands += [m["name"] for m in metas if levels[m["name"]] < 9] * 2
        t = tree(rng, cands, rng.choice([1, 2, 3, 4]))
        levels[name] = 1 + max([levels.get(x, 0) for x in names_in(t)] + [0])
        metas.append({"name": name, "tree": t, "score": rng.choice([None, 1, 0, 1.5]),
                      "priority": rng.choice([None, None, 5, -5])})
    broken = None
    if rng.random() < 0.5:
        kind = rng.choice(["undefined", "cycle1", "cycle2", "cycle3", "cycle_entry", "syntax",
                           "undef_chain", "deep"])
        broken = {"kind": kind, "expr": rng.choice(
            ["A &&", "(A", "A B", "|| A", "A && && B", "A)", "!", "A ||", "()A", "A !", "A = B", ")("])}
    return {"base": base, "metas": metas, "broken": broken, "seed": rng.randint(0, 10 ** 9),
            "truths": [[rng.random() < 0.5 for _ in base] for _ in range(6)],
            "words": [[w for w in WORDS if rng.random() < 0.5] for _ in range(6)],
            "paranoid": rng.random() < 0.35}


def config(case):
    import random
    rng = random.Random(case["seed"])
    blocks = []
    for b in case["base"]:
        n = b["name"]
        if b["kind"] == "probe":
            l = ["%s %s eval:probe('%s')" % (rng.choice(["body", "header", "rawbody"]), n, n)]
        elif b["kind"] == "body":
            l = ["body %s /%s/" % (n, b["word"])]
        else:
            l = ["header %s Subject =~ /%s/" % (n, b["word"])]
        if b["score"] is not None:
            l.append("score %s %s" % (n, b["score"]))
        blocks.append(l)
    for m in case["metas"]:
        l = ["meta %s %s" % (m["name"], show(rng, m["tree"]))]
        if m["score"] is not None:
            l.append("score %s %s" % (m["name"], m["score"]))
        if m["priority"] is not None:
            l.append("priority %s %d" % (m["name"], m["priority"]))
        blocks.append(l)
    bad = []
    b = case["broken"]
    first = case["base"][0]["name"]
    if b:
        k = b["kind"]
        hid = rng.choice(["", "__"])
        if k == "undefined":
            bad = [(hid + "BAD", "%s || NO_SUCH_RULE" % first)]
        elif k == "undef_chain":
            bad = [(hid + "BAD1", "NO_SUCH_RULE"), ("BAD2", "!%sBAD1 || %s" % (hid, first))]
        elif k == "cycle1":
            bad = [(hid + "BAD", "%s || %sBAD" % (first, hid))]
        elif k == "cycle2":
            bad = [(hid + "BAD1", "BAD2"), ("BAD2", "!%sBAD1 && %s" % (hid, first))]
        elif k == "cycle3":
            bad = [("BAD1", "BAD2"), ("BAD2", "BAD3 || %s" % first), ("BAD3", "!BAD1")]
        elif k == "cycle_entry":
            bad = [("BAD1", "BAD2 || %s" % first), ("BAD2", "BAD3"), ("BAD3", "BAD2")]
        elif k == "syntax":
            bad = [(hid + "BAD", b["expr"].replace("A", first).replace("B", first))]
        elif k == "deep":
            n = 40
            bad = [("BAD%d" % j, "BAD%d" % (j + 1)) for j in range(n)] + [("BAD%d" % n, "BAD0")]
        blocks.extend([["meta %s %s" % x] for x in bad])
    rng.shuffle(blocks)
    return "loadplugin vhprobe.Probe\n" + "\n".join(l for bl in blocks for l in bl) + "\n", \
        [x[0] for x in bad]


def run(case, obs):
    cf, bad = config(case)
    if bad and case["paranoid"]:
        try:
            oah.load(cf, paranoid=True)
        except oa.errors.ParsingError:
            obs.count("paranoid_rejected")
        else:
            obs.violation("paranoid-accepts-" + case["broken"]["kind"],
                          "paranoid load of %r did not fail" % cf)
        obs.nontrivial("p", cf)
        return
    rs, _ = oah.load(cf, paranoid=bool(case["paranoid"] and not bad))
    present = set(rs.checked) | set(rs.not_checked)
    for n in bad:
        obs.expect(n not in present, "rejected-" + case["broken"]["kind"],
                   "invalid meta %s is still loaded: %r", n, cf)
    if bad:
        obs.count("dropped_" + case["broken"]["kind"])
    for m in case["base"] + case["metas"]:
        obs.expect(m["name"] in present, "valid-dropped", "valid rule %s is missing (bad=%r) in %r",
                   m["name"], bad, cf)
    vals = []
    for truths, words in zip(case["truths"], case["words"]):
        env = {}
        vhprobe.reset()
        for b, t in zip(case["base"], truths):
            if b["kind"] == "probe":
                vhprobe.TRUTH[b["name"]] = t
                env[b["name"]] = t
            else:
                env[b["name"]] = b["word"] in words
        msg = oah.scan(rs, MSG % (" ".join(words), ""))
        for m in case["metas"]:
            env[m["name"]] = value(m["tree"], env)
        obs.count("scans")
        for m in case["base"] + case["metas"]:
            n = m["name"]
            on = not n.startswith("__") and (m["score"] is None or m["score"] != 0)
            if on:
                obs.count("results_compared")
                obs.expect(n in msg.rules_checked and bool(msg.rules_checked[n]) == bool(env[n]),
                           "meta-value" if "tree" in m else "leaf-value",
                           "%s gave %r expected %r, env %r, config:\n%s", n,
                           msg.rules_checked.get(n, "not evaluated"), env[n], env, cf)
            else:
                obs.expect(n not in msg.rules_checked, "hidden-evaluated",
                           "%s should not be reported", n)
                # still usable directly
                try:
                    got = bool(rs.get_rule(n).match(msg))
                except KeyError:
                    got = None
                obs.expect(got == bool(env[n]), "hidden-value", "%s matched %r expected %r in\n%s",
                           n, got, env[n], cf)
        for n in bad:
            obs.expect(n not in msg.rules_checked, "bad-evaluated", "%s was evaluated", n)
        vals.append(tuple(sorted((m["name"], int(env[m["name"]])) for m in case["metas"])))
    obs.nontrivial([m["tree"] for m in case["metas"]], sorted(set(vals)))
    if len(set(vals)) > 1:
        obs.count("outcome_varies")
    obs.sample({"config": cf, "outcomes": [str(v) for v in vals[:2]]})


if __name__ == "__main__":
    core.main("C03", gen, run, (16000, 200000),
              "random acyclic meta graphs (depth <= 10) over scripted and real leaf rules, six truth "
              "assignments each, half with an undefined/cyclic/malformed meta added; distinct by "
              "expressions and outcomes",
              require={"scans": 5000, "results_compared": 10000, "outcome_varies": 300,
                       "dropped_undefined": 20, "dropped_cycle1": 20, "dropped_cycle2": 20,
                       "dropped_cycle3": 20, "dropped_cycle_entry": 20, "dropped_syntax": 20,
                       "dropped_undef_chain": 20, "dropped_deep": 20, "paranoid_rejected": 50})
