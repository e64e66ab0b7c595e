"""C28: rules with replacement tags against the same rules with the tags written out."""
import re

from vh import core, oah

PLUGIN = "loadplugin oa.plugins.replace_tags.ReplaceTags\n"
# (value, texts it matches): every value is one atom, so that it can be repeated
VALUES = [("[a4@]", ["a", "4", "@"]), ("(?:vv?|w)", ["v", "vv", "w"]), (r"\d", ["4", "7"]), ("(?:x+)", ["x", "xxx"]),
          ("(?:t[o0])", ["to", "t0"]), (r"[\s_~-]", [" ", "_", "-"]), ("(?:click here)", ["click here"]),
          ("[^a-z]", ["Q", "9", " "]), (r"(?:\.|dot)", [".", "dot"]), ("z", ["z"]), ("(?:e|3|\\xe9)", ["e", "3"]),
          ("(?:p|ph)", ["p", "ph"]), (r"\W", ["!", " "])]
PRE = [r"\W?", "_", r"(?:\s|-)*", "(?:k)", "(?!zz)", "<pre>"]
INTER = [r"[\s.]*", "-", "<inter>", "(?:[+]|q)", r"\s"]
POST = ["{1,2}", "+", "{2}", "_", "(?!q)", "?", "<post>"]
SAMPLE = {r"\W?": ["", "!"], "_": ["_"], r"(?:\s|-)*": ["", "-", " -"], "(?:k)": ["k"], "(?!zz)": [""],
          "<pre>": ["<pre>"], r"[\s.]*": ["", ". "], "-": ["-"], "<inter>": ["<inter>"], "(?:[+]|q)": ["+", "q"],
          r"\s": [" "], "(?!q)": [""], "<post>": ["<post>"]}
NAMES = ["A", "B", "C", "AB", "SP", "V1", "O_O", "I", "PRE"]
# (start, end, unknown tags between them are harmless regular expressions)
BOUNDS = [("<", ">", True)] * 6 + [("@", "@", True), ("%%", "%%", True), ("{{", "}}", False), ("(", ")", True),
                                   ("[%", "%]", False), ("((", "))", True), ("<<", ">>", True), ("~", "~", True),
                                   ("(*", "*)", False), ("$", "$", False), ("<", ";", True)]
LITERALS = ["buy", "now", " ", "pills", "m", "[0-9]", "(?:on|off)", ".", "cheap ", "-", "s?", r"\s+", "q*", "(foo|bar)"]
BLANKS = [" ", " ", "   ", "\t", " \t "]
LIT_TEXT = {"[0-9]": ["5"], "(?:on|off)": ["on", "off"], ".": ["."], "s?": ["", "s"], r"\s+": [" "], "q*": ["", "qq"],
            "(foo|bar)": ["foo", "bar"]}


def gen_rule(rng, tags, deco, harmless):
    toks = []
    used = {k: rng.choice(sorted(deco[k])) if deco[k] and rng.random() < 0.45 else None for k in deco}
    for _ in range(rng.randint(1, 7)):
        r = rng.random()
        if r < 0.55 and tags:
            toks.append(("tag", rng.choice(sorted(tags))))
            if rng.random() < 0.25 and not used["post"]:
                toks.append(("quant", rng.choice(["+", "{2}", "?", "*", "{1,3}"])))
        elif r < 0.67 and harmless:
            if not toks or toks[-1][0] != "none":
                toks.append(("none", rng.choice(["Z", "a", "b", "AA", "ABC", "sp", "pre Q", "inter Q", "post Q"])))
        else:
            toks.append(("lit", rng.choice(LITERALS)))
    for k in sorted(used):
        if used[k]:
            for _ in range(rng.choice([1, 1, 1, 2]) if not any(t[0] == k for t in toks) else 1):
                toks.insert(rng.randint(0, len(toks)), (k, used[k]))
    # A decoration is not a place where the repetition of a tag can go
    out = []
    for t in toks:
        if t[0] == "quant" and (not out or out[-1][0] != "tag"):
            continue
        out.append(t)
    kind = rng.choice(["body", "body", "body", "rawbody", "full", "header", "header!", "uri"])
    return {"toks": out, "kind": kind, "flags": rng.choice(["", "", "i"]), "listed": rng.random() < 0.8,
            "delim": rng.choice(["/", "/", "/", "m,"])}


def gen(rng, i, tier):
    start, end, harmless = rng.choice(BOUNDS)
    tags = {n: list(rng.choice(VALUES)) for n in rng.sample(NAMES, rng.choice([0, 1, 2, 2, 3, 4]))}
    if tags and rng.random() < 0.25:
        # The values of the tags are not expanded again
        n = rng.choice(sorted(tags))
        lit = start + rng.choice(sorted(tags)) + end
        tags[n] = ["(?:%s)" % re.escape(lit).replace(re.escape(lit), lit) if start in "<@~" or start == "%%" or start == "<<"
                   else "(?:q)", [lit]]
    deco = {"pre": {n: rng.choice(PRE) for n in rng.sample(NAMES, rng.choice([0, 1, 2]))},
            "inter": {n: rng.choice(INTER) for n in rng.sample(NAMES, rng.choice([0, 1, 2]))},
            "post": {n: rng.choice(POST) for n in rng.sample(NAMES, rng.choice([0, 1, 2]))}}
    rules = [gen_rule(rng, tags, deco, harmless) for _ in range(rng.choice([1, 2, 3, 4]))]
    return {"start": start, "end": end, "tags": tags, "deco": deco, "rules": rules, "lazy": rng.random() < 0.5,
            "explicit": rng.random() < 0.5, "files": rng.choice([1, 1, 2, 3]), "seed": rng.randrange(1 << 30),
            "dup": rng.random() < 0.3, "missing": rng.random() < 0.2}


def source(case, rule):
    s, e = case["start"], case["end"]
    return "".join(t if k in ("lit", "quant") else s + (k + " " if k in ("pre", "inter", "post") else "") + t + e
                   for k, t in rule["toks"])


def expand(case, rule, rng=None):
    """The pattern with everything written out; with rng, a text made to match it instead."""
    deco = {}
    for k in ("pre", "inter", "post"):
        names = [t for kk, t in rule["toks"] if kk == k]
        deco[k] = case["deco"][k][names[0]] if names else ""
    toks = [t for t in rule["toks"] if t[0] not in ("pre", "inter", "post")]

    def value(v):
        if rng is None or not v:
            return v
        return rng.choice(SAMPLE.get(v, [""]))
    out = []
    for n, (k, t) in enumerate(toks):
        if k == "tag":
            v = case["tags"][t]
            one = value(deco["pre"]) + (v[0] if rng is None else rng.choice(v[1])) + value(deco["post"])
            if rng is not None and deco["post"] in ("{2}", "+"):
                one += rng.choice(v[1])
            out.append(one)
            if n + 1 < len(toks) and toks[n + 1][0] == "tag":
                out.append(value(deco["inter"]))
        elif k == "none":
            out.append(case["start"] + t + case["end"])
        elif k == "quant":
            out.append(t if rng is None else "")
        else:
            out.append(t if rng is None else rng.choice(LIT_TEXT.get(t, [t])))
    return "".join(out)


def pieces(rule):
    """What the pieces of the pattern are, to spot the patterns that are not what they look like."""
    return [k for k, _ in rule["toks"]]


def line(name, rule, pattern):
    d = rule["delim"]
    rx = "%s%s%s%s" % (d, pattern, d[-1], rule["flags"])
    if rule["kind"].startswith("header"):
        return "header %s X-Probe %s %s" % (name, "!~" if rule["kind"] == "header!" else "=~", rx)
    return "%s %s %s" % (rule["kind"], name, rx)


def ambiguous(case, rule):
    """Characters of the literals and tags form another tag than the ones that were put there."""
    src = source(case, rule)
    known = [case["start"] + n + case["end"] for n in case["tags"]]
    known += [case["start"] + k + " " + n + case["end"] for k in case["deco"] for n in case["deco"][k]]
    want = sum(1 for k, _ in rule["toks"] if k in ("tag", "pre", "inter", "post"))
    hits = sum(1 for p in range(len(src)) if any(src.startswith(k, p) for k in known))
    if hits != want:
        return True
    # A decoration between two others that together form a tag once it is gone
    bare = [t for t in rule["toks"] if t[0] not in ("pre", "inter", "post")]
    src = source(case, {"toks": bare})
    tags = sum(1 for k, _ in bare if k == "tag")
    return sum(1 for p in range(len(src)) if any(src.startswith(k, p) for k in known)) != tags


def run(case, obs):
    import random
    rng = random.Random(case["seed"])
    lines, plain, names = [], [], []
    listed = []
    for n, rule in enumerate(case["rules"]):
        if ambiguous(case, rule):
            obs.count("ambiguous")
            continue
        src = source(case, rule)
        pat = expand(case, rule)
        if src.startswith(" ") or "#" in src + pat or not pat or "," in src + pat and rule["delim"] == "m,":
            rule["delim"] = "/"
        if not pat:
            obs.count("empty")
            continue
        try:
            re.compile(pat)
            if not rule["listed"]:
                re.compile(src)
        except (re.error, OverflowError):
            obs.count("not_a_regex")
            continue
        lines.append(line("R%d" % n, rule, src))
        # The references: not listed, so nothing in them is replaced
        ref = "E%d" % n
        plain.append(line(ref, rule, pat if rule["listed"] else src))
        if rule["listed"]:
            listed.append("R%d" % n)
        names.append((n, rule, src, pat if rule["listed"] else src))
    if not names:
        return
    defs = []
    if (case["start"], case["end"]) != ("<", ">") or case["explicit"]:
        defs += ["replace_start %s" % case["start"], "replace_end %s" % case["end"]]
    defs += ["replace_tag %s%s%s" % (n, rng.choice(BLANKS), v[0]) for n, v in case["tags"].items()]
    for k in ("pre", "inter", "post"):
        defs += ["replace_%s %s%s%s" % (k, n, rng.choice(BLANKS), v) for n, v in case["deco"][k].items()]
    todo = list(listed) + (rng.sample(listed, 1) if case["dup"] and listed else [])
    if case["missing"]:
        todo.append("NOT_A_RULE")
    rng.shuffle(todo)
    while todo:
        k = rng.randint(1, len(todo))
        defs.append("replace_rules %s" % rng.choice([" ", "  ", "\t"]).join(todo[:k]))
        todo = todo[k:]
    everything = defs + lines
    rng.shuffle(everything)
    cut = sorted(rng.randint(0, len(everything)) for _ in range(case["files"] - 1))
    files = [PLUGIN] + ["\n".join(everything[a:b]) + "\n" for a, b in zip([0] + cut, cut + [len(everything)])]
    with oah.lazy(case["lazy"]):
        rs, _ = oah.load(files, lazy_mode=case["lazy"])
        ref, _ = oah.load("\n".join(plain) + "\n", lazy_mode=case["lazy"])
        usable = []
        for n, rule, src, pat in names:
            if "E%d" % n not in ref.checked:
                obs.count("reference_refused")
                continue
            obs.expect("R%d" % n in rs.checked, "tagged-rule-not-loaded", "%r not loaded, written out %r is: %s",
                       src, pat, everything)
            if "R%d" % n in rs.checked:
                usable.append((n, rule, src, pat))
        seen = set()
        for _ in range(6):
            texts = []
            for n, rule, src, pat in usable:
                r = rng.random()
                if r < 0.5:
                    texts.append(expand(case, rule, rng) if rule["listed"] else src)
                elif r < 0.7:
                    t = list(expand(case, rule, rng))
                    if t:
                        t[rng.randrange(len(t))] = rng.choice("aZ <>4-")
                    texts.append("".join(t))
                elif r < 0.85:
                    texts.append(src)
                else:
                    bare = dict(rule, toks=[t for t in rule["toks"] if t[0] != rng.choice(["pre", "inter", "post"])])
                    texts.append(expand(case, bare, rng))
            if not texts:
                return
            text = " | ".join(texts).replace("\r", "").replace("\n", " ")
            text = "".join(c if 32 <= ord(c) < 127 else " " for c in text)
            raw = ("From: a@example.com\nSubject: probe\nX-Probe: %s\n\n%s\n\nhttp://www.example.com/%s\n" % (
                rng.choice(texts).strip() or "none", text, rng.choice(texts).replace(" ", "")))
            got, want = oah.scan(rs, raw), oah.scan(ref, raw)
            for n, rule, src, pat in usable:
                g, w = bool(got.rules_checked.get("R%d" % n)), bool(want.rules_checked.get("E%d" % n))
                obs.count("compared")
                which = "listed" if rule["listed"] else "unlisted"
                obs.count("%s_%s" % (which, "hit" if w else "miss"))
                kinds = set(pieces(rule))
                if rule["listed"] and w:
                    for k in kinds - {"lit", "quant"}:
                        obs.count("hit_with_" + k)
                    if case["start"] != "<":
                        obs.count("hit_with_own_bounds")
                if rule["kind"] == "body" and not rule["flags"]:
                    para = [" ".join(text.split()), raw]
                    direct = any(re.search(pat, p) for p in para[:1])
                    # The body also holds the subject and the other paragraph: a hit is needed when the text has one
                    if direct and "  " not in text and not w:
                        obs.count("direct_differs")
                obs.expect(g == w, "expansion-%s" % which, "%s rule %r: hit %s, written out as %r: hit %s; %s; text %r",
                           which, line("R%d" % n, rule, src), g, pat, w, defs, raw[60:400])
                seen.add((n, g))
            if listed and any(b for _, b in seen):
                obs.sample({"rule": names[0][2], "written_out": names[0][3], "defs": len(defs)})
        obs.nontrivial(tuple(sorted(seen)), len(defs), case["start"], tuple(x[3] for x in usable))


if __name__ == "__main__":
    core.main("C28", gen, run, (2500, 80000),
              "one set of tag definitions with its rules per case, six messages, against the rules written out",
              require={"listed_hit": 800, "listed_miss": 800, "unlisted_hit": 100, "unlisted_miss": 100,
                       "hit_with_tag": 500, "hit_with_pre": 50, "hit_with_inter": 50, "hit_with_post": 50,
                       "hit_with_none": 20, "hit_with_own_bounds": 100})
