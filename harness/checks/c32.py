"""C32: the FreeMail rules against an independent model of the addresses a message was made of."""
import base64
import os
import quopri
import re
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vh import core, oah

LOCALS = ["bob", "bob", "ann.lee", "x1", "joe+tag", "m_r-x", "n0name", "support", "postmaster", "info", "bounce-77", "zoe", "owner-list", "no-reply", "a=b=c", "undisclosed-1",
          "news-request", "kontakt", "informer", "supporter"]
DOMAINS = ["gmail.com", "yahoo.co.uk", "mail.yahoo.com", "hotmail.co.uk", "corp.org", "ymail.com", "yahoo.com", "gmail.com.evil.org", "notgmail.com", "free.example",
           "gmailxcom.org", "sub.corp.org"]
ENTRIES = ["gmail.com", "yahoo.*", "yahoo.*.*", "hotmail.co.??", "?mail.com", "*.yahoo.com", "corp.org", "Hotmail.co.uk", "free.example", "g*l.com", "bad_domain.com", "x@corp.org",
           "hotmail????uk", "GMAIL.com", "sub?corp.org", "mail.com"]
REGEXES = [r"\d@", r"^bob@", r"^[a-z.]+@", r"\.com$", r"yahoo", r"lee", r"zzz"]
TEXTS = ["please write to %s now", "<%s>", "contact: %s.", "mailto:%s", "(%s)", "%s, or", "%s"]
FROM = ["From", "Envelope-Sender", "Resent-Sender", "X-Envelope-From", "Resent-From"]


def case_of(rng, a):
    r = rng.random()
    if r < .75:
        return a
    l, d = a.rsplit("@", 1)
    return rng.choice([l + "@" + d.upper(), l + "@" + d.capitalize(), a.capitalize(), a.upper()])


def addr(rng):
    return "%s@%s" % (rng.choice(LOCALS), rng.choice(DOMAINS))


def gen_message(rng):
    heads = {}
    pool = [addr(rng) for _ in range(3)]

    def some(k):
        return [rng.choice(pool) if rng.random() < .5 else addr(rng) for _ in range(k)]
    if rng.random() < .95:
        heads["From"] = [case_of(rng, a) for a in some(rng.choice([1, 1, 1, 2]))]
    if rng.random() < .6:
        heads["Reply-To"] = [case_of(rng, a) for a in some(rng.choice([1, 1, 2]))]
    for h in FROM[1:] + ["X-Other", "Cc"]:
        if rng.random() < .15:
            heads[h] = [case_of(rng, a) for a in some(rng.choice([1, 2]))]
    parts = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        ads = [case_of(rng, a) for a in some(rng.choice([0, 1, 1, 2, 2, 3, 5, 7]))]
        parts.append({"type": rng.choice(["text/plain", "text/plain", "text/html", "text/calendar"]), "cte": rng.choice(["7bit", "7bit", "base64", "quoted-printable"]),
                      "lines": [[rng.choice(TEXTS), a] for a in ads], "n": rng.randrange(1000)})
    return {"heads": heads, "style": rng.choice(["bare", "angle", "name", "encoded"]), "parts": parts,
            "env": rng.choice([None, None] + [a for a in (addr(rng), pool[0], "owner-x@lists.example.org", "no-reply@corp.org", "noreply@corp.org") if "=" not in a]), "fold": rng.random() < .2}


def gen(rng, i, tier):
    opts = {}
    for o, vs in (("freemail_max_body_emails", [1, 2, 3, 5, 8, 20]), ("freemail_max_body_freemails", [1, 2, 3, 4, 20]), ("freemail_skip_when_over_max", [0, 1]),
                  ("freemail_skip_bulk_envfrom", [0, 1]), ("freemail_add_describe_email", [0, 1])):
        if rng.random() < .5:
            opts[o] = rng.choice(vs)
    rules = []
    for _ in range(rng.randint(4, 9)):
        k = rng.choice(["from", "from", "header", "header", "body", "body", "replyto", "replyto"])
        if k == "header":
            a = [rng.choice(["From", "Reply-To", "X-Other", "Cc", "reply-to"])] + ([rng.choice(REGEXES)] if rng.random() < .5 else [])
        elif k == "replyto":
            a = rng.choice([[], ["replyto"], ["reply"]])
        else:
            a = [rng.choice(REGEXES)] if rng.random() < .5 else []
        rules.append([k, a])
    wl = [rng.choice([rng.choice(DOMAINS), addr(rng), rng.choice(DOMAINS).upper(), "*.com", "yahoo.*"]) for _ in range(rng.choice([0, 0, 0, 1, 2]))]
    return {"domains": rng.sample(ENTRIES, rng.choice([0, 1, 2, 3, 5, 8])), "wl": wl, "opts": opts, "rules": rules,
            "messages": [gen_message(rng) for _ in range(rng.choice([1, 2, 2]))], "split": rng.random() < .5}


def head(m, name):
    out = []
    for k, a in enumerate(m["heads"][name]):
        s = m["style"]
        out.append({"bare": "%s", "angle": "<%s>", "name": '"Some Body" <%s>', "encoded": "=?utf-8?Q?J=C3=B6rg_X?= <%s>"}[s] % a)
    return (",\n " if m["fold"] else ", ").join(out)


def raw_message(m):
    out = []
    if m["env"]:
        out.append("Received: from mail.example.net (mail.example.net [85.10.20.30])\n by mx.example.com with esmtps (Exim 4.85)\n (envelope-from <%s>)\n id 1aaNAy-0006f1-LZ"
                   " for u@example.com; Mon, 01 Jan 2018 00:00:00 +0000" % m["env"])
    out += ["%s: %s" % (n, head(m, n)) for n in sorted(m["heads"])]
    out += ["Subject: s", "MIME-Version: 1.0"]

    def entity(p):
        lines = ["line %d" % p["n"]] + [t % a for t, a in p["lines"]]
        if p["type"] == "text/html":
            body = "<html><body>\n" + "".join("<p>%s</p>\n" % x.replace("<", "&lt;").replace(">", "&gt;") for x in lines) + "</body></html>\n"
        else:
            body = "\n".join(lines) + "\n"
        if p["cte"] == "base64":
            body = base64.encodebytes(body.encode()).decode()
        elif p["cte"] == "quoted-printable":
            body = quopri.encodestring(body.encode()).decode().replace("@", "=40")
        return "Content-Type: %s\nContent-Transfer-Encoding: %s\n\n%s" % (p["type"], p["cte"], body)
    if len(m["parts"]) == 1:
        return "\n".join(out) + "\n" + entity(m["parts"][0])
    return ("\n".join(out) + '\nContent-Type: multipart/mixed; boundary="bb"\n\n' + "".join("--bb\n%s\n" % entity(p) for p in m["parts"]) + "--bb--\n")


def config(case):
    cf = ["loadplugin oa.plugins.free_mail.FreeMail", "util_rb_tld com org uk example", "util_rb_2tld co.uk", "report _REPORT_"]
    if case["domains"]:
        cf += ["freemail_domains " + d for d in case["domains"]] if case["split"] else ["freemail_domains " + " ".join(case["domains"])]
    if case["wl"]:
        cf.append("freemail_whitelist " + " ".join(case["wl"]))
    cf += ["%s %d" % o for o in sorted(case["opts"].items())]
    for n, (k, a) in enumerate(case["rules"]):
        name = {"from": "check_freemail_from", "header": "check_freemail_header", "body": "check_freemail_body", "replyto": "check_freemail_replyto"}[k]
        cf.append("header R%d eval:%s(%s)" % (n, name, ", ".join("'%s'" % x for x in a)))
    return "\n".join(cf) + "\n"


def glob(e, d):
    """Match a domain, label by label."""
    p = re.escape(e.lower()).replace(r"\*", "[^.]*").replace(r"\?", "[^.]")
    return re.match("(?:%s)\\Z" % p, d) is not None


def model(case):
    entries = [e for e in case["domains"] if re.match(r"[A-Za-z0-9.*?-]+\Z", e)]
    wl = [w.lower() for w in case["wl"]]

    def freemail(a):
        a = a.lower()
        local, d = a.rsplit("@", 1)
        if a in wl or d in wl:
            return False
        if local in ("abuse", "support", "sales", "info", "helpdesk", "contact", "kontakt", "postmaster", "hostmaster", "domainmaster"):
            return False
        if local.startswith("undisclosed") or re.match(r"bounced?-\Z", local) or re.match(".+=.+=.+", local):
            return False
        return any(glob(e, d) for e in entries)
    return freemail


def bulk(a):
    local = a.rsplit("@", 1)[0].lower()
    return bool(re.match(r"(post|host|domain)master\Z|double-bounce\Z", local) or re.match("(sentto|owner|return|(gr)?bounced?)-.+", local) or
                re.search("-(request|bounces?|admin|owner)\\Z", local) or re.search(r"\b(do[-._t]?)?no[-._t]?repl(y|ies)\Z", local) or re.search(".+=.+", local))


def run(case, obs):
    cf = config(case)
    rs, _ = oah.load(cf)
    freemail = model(case)
    o = {"freemail_max_body_emails": 5, "freemail_max_body_freemails": 3, "freemail_skip_when_over_max": 1, "freemail_skip_bulk_envfrom": 1,
         "freemail_add_describe_email": 1}
    o.update(case["opts"])
    for m in case["messages"]:
        raw = raw_message(m)
        msg = oah.scan(rs, raw)
        got = set(oah.hits(msg))
        # who sent it
        env = m["env"]
        if not env:
            env = msg.sender_address or ""
            obs.expect(not env or any(env in v for v in m["heads"].values()), "sender", "sender %r is nowhere in the message\n%s", env, raw)
        senders = [a for h in FROM for a in m["heads"].get(h, [])] + ([env] if env else [])
        body = set(a.lower() for p in m["parts"] if p["type"] in ("text/plain", "text/html") for _, a in p["lines"])
        free = set(a for a in body if freemail(a))
        over = (len(body) >= o["freemail_max_body_emails"] and o["freemail_skip_when_over_max"]) or len(free) >= o["freemail_max_body_freemails"]
        obs.count("messages")
        for n, (k, a) in enumerate(case["rules"]):
            reg = None
            show = None
            if k == "from":
                reg = a[0] if a else None
                show = [x for x in senders if freemail(x) and (not reg or re.search(reg, x))]
                # whether the pattern sees the address as written or in lower case
                other = [x for x in senders if freemail(x) and (not reg or re.search(reg, x.lower()))]
            elif k == "header":
                reg = a[1] if len(a) > 1 else None
                mine = [x for h, v in m["heads"].items() if h.lower() == a[0].lower() for x in v]
                show = [x for x in mine if freemail(x) and (not reg or re.search(reg, x))]
                other = [x for x in mine if freemail(x) and (not reg or re.search(reg, x.lower()))]
            elif k == "body":
                reg = a[0] if a else None
                if over:
                    show = other = []
                else:
                    written = [x for p in m["parts"] if p["type"] in ("text/plain", "text/html") for _, x in p["lines"] if freemail(x)]
                    show = [x for x in written if not reg or re.search(reg, x)]
                    other = [x for x in written if not reg or re.search(reg, x.lower())]
            else:
                opt = a[0] if a else "replyto"
                frm = m["heads"].get("From", [""])[0].lower()
                rep = m["heads"].get("Reply-To", [""])[0].lower()
                ff, rf = bool(frm) and freemail(frm), bool(rep) and freemail(rep)
                if env and bulk(env) and o["freemail_skip_bulk_envfrom"]:
                    want = False
                elif ff and rf and frm != rep:
                    want = True
                elif opt == "replyto":
                    want = rf and not over and any(x != rep for x in free)
                elif rep and rf and not ff:
                    # not said
                    continue
                else:
                    want = not (rep and not rf) and ff and not over and any(x != frm for x in free)
                obs.count("replyto_%s_%s" % (opt, "hits" if want else "misses"))
                obs.expect(("R%d" % n in got) == bool(want), "replyto:" + opt, "R%d is %s, should be %s (envelope sender %s)\n%s\n%s", n, "R%d" % n in got, bool(want), env, cf, raw)
                continue
            if bool(show) != bool(other):
                continue
            obs.count("%s%s_%s" % (k, "_re" if reg else "", "hits" if show else "misses"))
            obs.expect(("R%d" % n in got) == bool(show), k, "R%d is %s, should be %s\n%s\n%s", n, "R%d" % n in got, bool(show), cf, raw)
            if show and "R%d" % n in got:
                # the report says which address it was, if asked to
                text = report_of(rs, msg, n)
                named = set(x.lower().replace("[at]", "@") for x in re.findall(r"[^\s(),]+\[at\][^\s(),]+", text))
                obs.count("described")
                if o["freemail_add_describe_email"]:
                    obs.expect(bool(named) and named <= set(x.lower() for x in show + other), "described", "the report of R%d names %s, not (only) %s\n%s\n%s\n%s", n, sorted(named), show, text, cf, raw)
                    if k == "body" and not reg:
                        obs.expect(named == set(x.lower() for x in show), "described", "the report of R%d names %s, not %s\n%s\n%s\n%s", n, sorted(named), show, text, cf, raw)
                else:
                    obs.expect(not named, "described", "the report of R%d names %s although this is off\n%s\n%s", n, named, text, cf)
        obs.nontrivial(cf, raw)
    obs.sample({"config": cf}, 3)


def report_of(rs, msg, n):
    """The lines of the report about the rule."""
    text = rs.get_report(msg)
    out, on = [], False
    for line in text.split("\n"):
        r = re.search(r"\bR(\d+)\b", line)
        if r:
            on = int(r.group(1)) == n
        if on:
            out.append(line)
    return "\n".join(out)


if __name__ == "__main__":
    core.main("C32", gen, run, (3000, 60000), "one configuration and one or two messages per case",
              require={"from_hits": 100, "from_misses": 100, "from_re_hits": 50, "from_re_misses": 50, "header_hits": 100, "header_misses": 100, "header_re_hits": 30,
                       "header_re_misses": 50, "body_hits": 100, "body_misses": 100, "body_re_hits": 30, "body_re_misses": 50, "replyto_replyto_hits": 50,
                       "replyto_replyto_misses": 100, "replyto_reply_hits": 20, "replyto_reply_misses": 50, "described": 100})
