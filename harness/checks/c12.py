"""C12: templates expand to the facts of the scan, everything else is reproduced literally.

Oracle: the template is generated as a list of literals and tags; every tag has its own independent
expectation computed from the scripted rule results, the configuration and the generated relays.
"""
import os
import re
import socket
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import vhprobe
from vh import core, oah
from vh.mailtext import split

LITS = ["plain text", "100%", "%", "%%", "%s", "%(x)s", "%(SCORE)s", "%d of %d", "{0}", "{}", "$1",
        "\\1", "\\n", "a_b", "__", "_", "_lower_", "snake_case_name", "a__b", "(;)", "[x]", "<b>",
        "caf\xe9", "\xa3 5", "it's", "say \"hi\" now", "50%_", "_5_", "_a1_", "%2.1f", ":", "*", "=?",
        "@@x@@", "a  b", "tab\there", "_ _", "Yes", "~", "&amp;", "\xdf"]
UNKNOWN = ["FOO", "BAR", "NOSUCHTAG", "X", "REPORTS", "TEST", "SCORES"]
NETTAGS = ["RDNS", "HELO", "IP", "ENVFROM", "BY", "IDENT", "ID", "AUTH"]
RELTAGS = ["RELAYSTRUSTED", "RELAYSUNTRUSTED", "RELAYSINTERNAL", "RELAYSEXTERNAL"]
LASTTAGS = ["LASTEXTERNALIP", "LASTEXTERNALRDNS", "LASTEXTERNALHELO"]
BASE = ["YESNOCAPS", "YESNO", "REQD", "VERSION", "SUBVERSION", "HOSTNAME", "TESTS", "SCORE",
        "CONTACTADDRESS", "TESTSSCORES"]
MULTI = ["PREVIEW", "REPORT", "SUMMARY"]


def gen_text(rng, multi=True):
    """A template as a list of ("l", text) and ("t", tag)."""
    out = []
    for _ in range(rng.randrange(1, 7)):
        if rng.random() < 0.5:
            out.append(("l", rng.choice(LITS)))
            if rng.random() < 0.6:
                out.append(("l", " "))
        else:
            r = rng.random()
            if r < 0.5:
                t = rng.choice(BASE)
                if t in ("TESTS", "TESTSSCORES") and rng.random() < 0.5:
                    t += "(%s)" % rng.choice([",", ";", " ", ", ", "|", "%", "-", "%s", "", "_", "\xe9"])
            elif r < 0.6 and multi:
                t = rng.choice(MULTI)
            elif r < 0.7:
                t = rng.choice(["SC", "SCRULE", "SCTYPE"])
            elif r < 0.8:
                t = "PTAG"
            elif r < 0.88:
                t = rng.choice(NETTAGS + LASTTAGS + RELTAGS)
            else:
                t = rng.choice(UNKNOWN)
            out.append(("t", t))
            if rng.random() < 0.5:
                out.append(("l", rng.choice([" ", ", ", ";", "%", "_", "/"])))
    # The ends of a line are stripped of blanks and quotes, and a literal must not
    # complete a tag with its neighbours
    return [("l", rng.choice(["A:", "z", "(", "-", "%"]))] + out + [("l", rng.choice([".", ")", "%", "!"]))]


def txt(t):
    return "".join(x if k == "l" else "_%s_" % x for k, x in t)


def relay(rng, n):
    """A relay written by Exim, with all its fields."""
    ip = rng.choice(["10.0.0.%d", "192.168.3.%d", "203.0.113.%d", "198.51.100.%d"]) % rng.randrange(1, 250)
    r = {"ip": ip, "rdns": "r%d.example.net" % n, "helo": "h%d.example.org" % n,
         "by": "by%d.example.com" % n, "ident": "", "envfrom": "u%d@example.edu" % n,
         "id": "ID%d-%s" % (n, rng.choice("abc")), "auth": ""}
    # from rdns (rdns [ip]) ... sendmail style with envelope-from as Exim writes it
    h = "from %(rdns)s ([%(ip)s] helo=%(helo)s) by %(by)s with smtp (Exim 4.20) (envelope-from <%(envfrom)s>) id %(id)s for you@x.example" % r
    return r, h + "; Thu, 1 Jan 2015 10:00:00 +0000"


def gen(rng, i, tier):
    rules = []
    for n in range(rng.randrange(1, 7)):
        name = "%sR%d" % (rng.choice(["", "", "", "__"]), n)
        rules.append({
            "name": name, "score": rng.choice([0.5, 1, 2, 2.25, 3, -1, -0.75, 10, 0.001, 100]),
            "desc": rng.choice([None, "rule %d" % n, "100%% sure %d" % n, "%%s _SCORE_ %d" % n,
                                "with d\xe9sc %d" % n]),
            "results": [rng.choice([True, False, False, 1, 0, "text %d" % n, "50% _X_"]) for _ in range(3)],
            "sc": rng.random() < 0.05 and rng.choice(["on", "spam", "ham"])})
    rel = [relay(rng, n) for n in range(rng.randrange(0, 4))]
    sections = {}
    for s in ("report", "unsafe_report"):
        ops = []
        for _ in range(rng.randrange(0, 6)):
            ops.append("clear" if rng.random() < 0.2 else gen_text(rng))
        sections[s] = ops
    heads = [(rng.choice(["all", "spam", "ham"]), "H%d" % n, gen_text(rng), rng.random() < 0.2)
             for n in range(rng.randrange(0, 4))]
    order = [("report", x) for x in sections["report"]] + \
            [("unsafe_report", x) for x in sections["unsafe_report"]]
    rng.shuffle(order)   # relative order inside a section is the order it ends up with
    body = [rng.choice(["short", "a longer line of text here", "100% _SCORE_ %s", "w" * 90, ""])
            for _ in range(rng.randrange(0, 6))]
    return {"rules": rules, "relays": [r for r, _ in rel], "received": [h for _, h in rel],
            "order": order, "heads": heads, "req": rng.choice([5, 1, 0.5, 4.96, 3.25, -1]),
            "contact": rng.choice([None, "me@example.com", "50% off <a@b>", "_SCORE_ x"]),
            "body": body, "ptag": rng.choice(["pv", "50%", "_SCORE_ %s", ""]),
            "trust": rng.random() < 0.5, "safe": rng.choice([0, 1, 2]),
            "shuf": rng.random()}


def conf(c):
    # the definition of the results comes first so that a meta-free rule order is fixed
    out = ["loadplugin vhprobe.Probe",
        "loadplugin oa.plugins.short_circuit.ShortCircuit",
        "required_score %s" % c["req"], "report_safe %d" % c["safe"],
        "originating_ip_headers X-None"]
    if c["contact"] is not None:
        out.append("report_contact " + c["contact"])
    if c["trust"]:
        out += ["trusted_networks 10.0.0.0/8", "trusted_networks 203.0.113.0/24", "internal_networks 10.0.0.0/8"]
    for r in c["rules"]:
        out.append("body %s eval:probe('%s')" % (r["name"], r["name"]))
        out.append("score %s %s" % (r["name"], r["score"]))
        if r["desc"] is not None:
            out.append("describe %s %s" % (r["name"], r["desc"]))
        if r["sc"]:
            out.append("shortcircuit %s %s" % (r["name"], r["sc"]))
    for s, x in c["order"]:
        out.append("clear_%s_template" % s if x == "clear" else "%s %s" % (s, txt(x)))
    for who, name, t, quoted in c["heads"]:
        out.append("add_header %s %s %s" % (who, name, '"%s"' % txt(t) if quoted else txt(t)))
    return "\n".join(out) + "\n"


def squash(s):
    return re.sub(r"\s+", " ", s).strip()


def partition(c):
    """Trusted / internal prefixes of the relays (networks: see conf; private when unset)."""
    tr, un, it, ex = [], [], [], []
    t = i = True
    for r in c["relays"]:
        ip = r["ip"]
        if c["trust"]:
            if t and not ip.startswith(("10.", "203.0.113.")):
                t = i = False
            if i and not ip.startswith("10."):
                i = False
        elif t and not ip.startswith(("10.", "192.168.", "203.0.113.", "198.51.100.")):
            t = i = False
        (tr if t else un).append(r)
        (it if i else ex).append(r)
    return tr, un, it, ex


def expectation(c, n, state):
    """tag -> list of acceptable texts, or a checking function."""
    hits = state["hits"]
    spam = state["score"] >= c["req"]
    e = {"YESNOCAPS": ["YES" if spam else "NO"], "YESNO": ["Yes" if spam else "No"],
         "REQD": ["%0.1f" % c["req"]], "SCORE": ["%0.1f" % state["score"]],
         "VERSION": [oah.oa.__version__], "SUBVERSION": [oah.oa.__release_date__],
         "HOSTNAME": [socket.gethostname()], "CONTACTADDRESS": [c["contact"] or ""],
         "PTAG": [c["ptag"]]}
    if state["sc"]:
        name, kind = state["sc"]
        e.update(SC=["%s (%s)" % (name, kind)], SCRULE=[name], SCTYPE=[kind])
    else:
        e.update(SC=["no"], SCRULE=["none"], SCTYPE=["off"])
    return e


def split_template(t, e, blanks):
    """-> regular expression for the expansion, and the names of the groups."""
    out, groups = [], []
    for k, x in t:
        if k == "l":
            # re.escape() may or may not escape blanks
            out.append(r"\s*".join(re.escape(y) for y in re.split(r"\s+", x)) if blanks
                       else re.escape(x))
        elif x in e:
            out.append("(?:%s)" % "|".join(re.escape(v) for v in e[x]))
        else:
            groups.append(x)
            out.append("(.*?)")
    return "".join(out), groups


def check_group(c, tag, got, state, obs):
    """The tags whose value has structure."""
    hits = state["hits"]
    if tag.startswith("TESTSSCORES"):
        sep = tag[12:-1] if "(" in tag else ","
        if not hits:
            return got == "none"
        m = re.match(re.escape(sep).join(r"%s=(-?\d[\d.e-]*?)" % r["name"] for r in hits) + r"\Z", got)
        return m is not None and [float(x) for x in m.groups()] == [r["score"] for r in hits]
    if tag.startswith("TESTS"):
        sep = tag[6:-1] if "(" in tag else ","
        if not hits:
            return got == "none"
        names = sorted(r["name"] for r in hits)
        if not sep or sep == "_":
            return len(got) == sum(map(len, names)) + len(sep) * (len(names) - 1) and \
                all(x in got for x in names)
        return sorted(got.split(sep)) == names
    if tag == "PREVIEW":
        body = squash(" ".join(c["body"]))
        g = got[:-5] if got.endswith("[...]") else None
        return g is not None and (body.startswith(squash(g)) and (squash(g) or not body
                                  or not squash(" ".join(c["body"][:3]))))
    if tag in ("REPORT", "SUMMARY"):
        lines = [x.strip() for x in got.splitlines() if x.strip()]
        if len(lines) != len(hits):
            return False
        for r, ln in zip(hits, lines):
            m = re.match(r"(\* )?\s*(-?[\d.e-]+)\s+(%s)\s+(?:(?:BODY|URI|FULL|HEADER): ?)?(.*)\Z"
                         % re.escape(r["name"]), ln)
            if not m or abs(float(m.group(2)) - r["score"]) > 0.0501:
                return False
            if squash(m.group(4)) not in (squash(r["text"]), squash(r["plain"])):
                return False
            if tag == "REPORT" and squash(m.group(4)) != squash(r["text"]):
                return False
        return True
    if tag in NETTAGS:
        if not c["relays"]:
            return got in ("@@%s@@" % tag, "")
        return got == c["relays"][0][tag.lower()]
    tr, un, it, ex = partition(c)
    if tag in RELTAGS:
        rel = dict(zip(RELTAGS, (tr, un, it, ex)))[tag]
        found = [dict(x.split("=", 1) for x in b.split()) for b in re.findall(r"\[ (.*?) \]", got)]
        return len(found) == len(rel) and all(
            all(f.get(k) == r[k] for k in ("ip", "rdns", "helo", "by", "envfrom", "id"))
            for f, r in zip(found, rel))
    if tag in LASTTAGS:
        if not ex:
            return got in ("@@%s@@" % tag, "")
        return got == ex[0][tag[len("LASTEXTERNAL"):].lower()]
    return got in ("@@%s@@" % tag, "_%s_" % tag, "")


def compare(c, t, got, state, e, obs, where):
    """One template line (or lines) against its expansion."""
    rx, groups = split_template(t, e, where == "header")
    m = re.match("(?s)" + rx + r"\Z", got)
    obs.count("templates")
    for k, x in t:
        if k == "t":
            obs.count("tags")
            obs.seen("tag", x.split("(")[0])
    if not obs.expect(m is not None, where + ":literal", {"template": txt(t), "got": got[:1500],
                                                          "state": str(state)[:600]}):
        return
    if len(groups) == 1:
        # One structured tag: its value is exactly the text of the group
        obs.count("structured")
        obs.expect(check_group(c, groups[0], m.group(1), state, obs),
                   "%s:tag:%s" % (where, groups[0].split("(")[0]),
                   {"template": txt(t), "got": m.group(1)[:1500], "state": str(state)[:900]})


def run(case, obs):
    c = case
    rs, parser = oah.load(conf(c))
    raw = "".join("Received: %s\n" % h for h in c["received"]) + "Subject: s\nX-A: b\n\n" + \
        "\n".join(c["body"]) + "\n"
    msg = None
    for n in range(3):
        state = {"hits": [], "score": 0, "sc": None}
        for r in c["rules"]:
            if r["name"].startswith("__"):
                continue
            res = r["results"][n]
            if isinstance(res, str) or res:
                plain = r["desc"] if r["desc"] is not None else "No description available."
                state["hits"].append(dict(r, text=res if isinstance(res, str) else plain, plain=plain))
                state["score"] += r["score"]
                if r["sc"]:
                    state["score"] += {"on": 0, "spam": 100, "ham": -100}[r["sc"]]
                    state["sc"] = (r["name"], r["sc"])
                    break
        if abs(state["score"] - c["req"]) < 1e-9 or abs(
                abs(state["score"]) * 10 % 1 - 0.5) < 1e-6:
            obs.count("borderline")
            continue

        def result(name, n=n):
            r = [x for x in c["rules"] if x["name"] == name][0]
            return r["results"][n]
        truth = {}
        for r in c["rules"]:
            def f(m, v=r["results"][n]):
                m.plugin_tags["PTAG"] = c["ptag"]
                return v
            truth[r["name"]] = f
        vhprobe.reset(truth)
        if msg is None or n == 2:
            msg = oah.oa.message.Message(rs.ctxt, raw)
        else:
            msg.clear_matches()
            obs.count("rescans")
        rs.match(msg)
        obs.count("scans")
        if not any(not r["name"].startswith("__") for r in c["rules"]):
            obs.count("norules")
            return
        if any(r["sc"] for r in c["rules"]) and n == 1:
            # the tags of a short circuit after a second scan belong to C20
            continue
        e = expectation(c, n, state)
        obs.expect(abs(msg.score - state["score"]) < 1e-6, "score", {"got": msg.score, "want": state})
        # -- the two report templates
        for s, call in (("report", rs.get_report), ("unsafe_report", rs.get_unsafe_report)):
            lines = []
            for sec, x in c["order"]:
                if sec == s:
                    lines = [] if x == "clear" else lines + [x]
            got = call(msg)
            if not lines:
                obs.expect("no report template found" in got, s + ":none", {"got": got})
                continue
            t = []
            for x in lines:
                t += x + [("l", "\n")]
            obs.nontrivial(txt(t))
            compare(c, t, got, state, e, obs, s)
            if len(lines) > 1:
                obs.count("multiline")
        # -- headers
        spam = state["score"] >= c["req"]
        head = rs.get_adjusted_message(msg, header_only=True)
        hs = split(head.replace("\r\n", "\n"))
        if not obs.expect(hs is not None, "headers:shape", {"got": head}):
            continue
        for who, name, t, quoted in c["heads"]:
            vals = [v for k, v in hs[0] if k == "X-Spam-" + name]
            want = who == "all" or (who == "spam") == spam
            if not obs.expect(len(vals) == int(want), "headers:count",
                              {"name": name, "who": who, "spam": spam, "got": vals}):
                continue
            if want:
                obs.count("headers")
                v = decode(vals[0])
                simple = [(k, x) for k, x in t]
                if any(k == "t" and x in MULTI for k, x in simple):
                    continue        # folded: covered by the report templates
                compare(c, simple, squash(v), state,
                        {k: [squash(x) for x in xs] for k, xs in e.items()}, obs, "header")


def decode(v):
    import email.header
    v = re.sub(r"\n\s*", " ", v)
    if "=?" in v and "?=" in v:
        return "".join(b.decode(cs or "iso-8859-1") if isinstance(b, bytes) else b
                       for b, cs in email.header.decode_header(v))
    return v


if __name__ == "__main__":
    sys.exit(core.main(
        "C12", gen, run, (3000, 40000),
        rule="every template line expands to its literals and to the independently computed values "
             "of its tags",
        require={"templates": 1000, "tags": 1000, "structured": 200, "headers": 200, "rescans": 100},
        assumptions=["values of more than one structured tag in one line are only checked for the "
                     "literals between them", "header values are compared with blanks collapsed"]))
