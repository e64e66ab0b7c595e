"""C05: header rules against an independent model of which headers they may see."""
import base64

from vh import core, oah

NAMES = ["X-Alpha", "X-Beta", "X-Alphabet", "Subject", "To", "Cc", "From", "Reply-To", "Message-Id",
         "X-Message-Id", "Resent-Message-Id", "List-Id", "Received", "Comments", "Xalpha", "exists",
         "sensitive", "tests", "In-Reply-To", "Bcc", "ToCc", "X-Originating-IP"]
WORDS = ["kestrel", "osprey", "harrier", "merlin", "falcon", "condor", "vulture", "buzzard"]
NONASCII = ["z\u00fcrich", "\u0141\u00f3d\u017a", "\u043c\u043e\u0441\u043a\u0432\u0430", "\u6771\u4eac", "caf\u00e9"]
ADDRS = ["joe@example.com", "Ann.Smith+x@mail.example.org", "root@localhost.localdomain",
         "k1@example.net", "list-owner@lists.example.info"]
DISP = ["Joe Bloggs", "Ann Smith", "Support Team", "K One", "Owner"]


def case_mix(rng, s):
    return rng.choice([s, s, s.lower(), s.upper(), s.swapcase()])


def enc_word(rng, text):
    cs = rng.choice(["utf-8", "utf-8", "iso-8859-1", "koi8-r", "UTF-8", "iso-8859-2"])
    try:
        raw = text.encode(cs)
    except UnicodeError:
        cs = "utf-8"
        raw = text.encode(cs)
    if rng.random() < 0.5:
        return "=?%s?%s?%s?=" % (cs, rng.choice("bB"), base64.b64encode(raw).decode())
    out = []
    for b in raw:
        c = chr(b)
        if c == " ":
            out.append(rng.choice(["_", "=20"]))
        elif c.isalnum() and b < 128 and rng.random() < 0.9:
            out.append(c)
        else:
            out.append(("=%02X" % b) if rng.random() < 0.7 else "=%02x" % b)
    return "=?%s?%s?%s?=" % (cs, rng.choice("qQ"), "".join(out))


def gen_value(rng, name):
    """(raw value, decoded words, kind)."""
    base = name.lower()
    if base in ("to", "cc", "from", "reply-to", "bcc") or rng.random() < 0.06:
        n = rng.randint(1, 3)
        raws, decs = [], []
        for _ in range(n):
            a = rng.choice(ADDRS)
            d = rng.choice(["", rng.choice(DISP), rng.choice(DISP), rng.choice(NONASCII)])
            style = rng.choice(["plain", "angle", "comment", "quoted"]) if d else rng.choice(["plain", "angle"])
            shown = d
            encd = d
            if any(ord(c) > 127 for c in d):
                encd = enc_word(rng, d)
                style = "angle"
            if style == "plain":
                raws.append(a), decs.append(("", a))
            elif style == "angle":
                raws.append((encd + " " if d else "") + "<" + a + ">"), decs.append((shown, a))
            elif style == "comment":
                raws.append("%s (%s)" % (a, d)), decs.append((d, a))
            else:
                raws.append('"%s" <%s>' % (d, a)), decs.append((d, a))
        raw = rng.choice([", ", ",\n\t", ",\n "]).join(raws)
        return {"raw": raw, "addrs": decs, "kind": "addr"}
    n = rng.randint(1, 5)
    toks = []
    for _ in range(n):
        if rng.random() < 0.3:
            toks.append(("e", rng.choice(NONASCII + WORDS)))
        else:
            toks.append(("p", rng.choice(WORDS)))
    raw, dec = "", ""
    prev = None
    for kind, w in toks:
        sep = rng.choice([" ", " ", " ", "\n\t", "\n "])
        if not any(k == "e" for k, _ in toks) and rng.random() < 0.1:
            # Not line breaks, whatever str.splitlines says
            sep = rng.choice(["\x0b", "\x0c", "\x1c", "\x1d", "\x1e", "\x85", "\u2028", "\x01"])
        if prev is not None:
            raw += sep
            if not (prev == "e" and kind == "e"):
                dec += " "
        raw += enc_word(rng, w) if kind == "e" else w
        dec += w
        prev = kind
    return {"raw": raw, "dec": dec, "kind": "text"}


def gen_headers(rng, n, pool):
    out = []
    for _ in range(n):
        name = rng.choice(pool)
        v = gen_value(rng, name)
        v["name"] = case_mix(rng, name)
        out.append(v)
    return out


def gen(rng, i, tier):
    pool = rng.sample(NAMES, rng.randint(3, len(NAMES)))
    top = gen_headers(rng, rng.randint(1, 8), pool)
    parts = [gen_headers(rng, rng.randint(0, 3), pool) for _ in range(rng.choice([0, 1, 2, 3]))]
    nested = gen_headers(rng, rng.randint(1, 4), NAMES) if rng.random() < 0.4 else None
    body = gen_headers(rng, rng.randint(0, 3), NAMES)
    rules = []
    for k in range(rng.randint(4, 12)):
        kind = rng.choice(["plain", "plain", "plain", "raw", "addr", "name", "exists", "exists", "tocc",
                           "messageid", "all", "mime", "mimeraw", "neg"])
        name = rng.choice(pool if rng.random() < 0.85 else NAMES)
        if rng.random() < 0.5:
            name = rng.choice(top)["name"].title()
        adr = [h for h in top if h["kind"] == "addr"]
        if kind in ("addr", "name") and adr and rng.random() < 0.8:
            name = rng.choice(adr)["name"]
        src = [h for h in top if h["name"].lower() == name.lower()]
        # a word that really occurs, or one that occurs elsewhere
        w = None
        if rng.random() < 0.6:
            every = (src or top)
            v = rng.choice(every)
        else:
            every = top + sum(parts, []) + (nested or []) + body
            v = rng.choice(every) if every else rng.choice(top)
        if v["kind"] == "addr":
            d, a = rng.choice(v["addrs"])
            w = rng.choice([a, d or a])
        else:
            w = rng.choice(v["dec"].split())
        if kind == "all" and rng.random() < 0.5:
            h = rng.choice(top)
            t = decoded(h).split()[0]
            w = rng.choice([h["name"], h["name"].swapcase()]) + ": " + t
        anchored = rng.random() < 0.15
        rules.append({"kind": kind, "name": case_mix(rng, name), "word": w, "anchor": anchored})
    return {"top": top, "parts": parts, "nested": nested, "body": body, "rules": rules,
            "lazy": rng.random() < 0.6, "crlf": rng.random() < 0.3, "shape": rng.random() < 0.5,
            "oip": rng.random() < 0.3}


def render_headers(hs):
    return "".join("%s: %s\n" % (h["name"], h["raw"]) for h in hs)


def build(case):
    if not case["parts"] and case["nested"] is None:
        ct = ""
        body = render_headers(case["body"]) + "\nthe end\n"
        return render_headers(case["top"]) + ct + "\n" + "text first\n" + body
    b = "=_bound"
    out = render_headers(case["top"]) + "MIME-Version: 1.0\nContent-Type: multipart/mixed;\n boundary=\"%s\"\n\n" % b
    out += "preamble\n" + render_headers(case["body"])
    for p in case["parts"]:
        out += "--%s\n%sContent-Type: text/plain\n\npart text\n%s\n" % (b, render_headers(p),
                                                                    render_headers(case["body"]))
    if case["nested"] is not None:
        out += "--%s\nContent-Type: message/rfc822\n\n%s\nnested body\n" % (b, render_headers(case["nested"]))
    return out + "--%s--\n" % b


def latin(w):
    return w.encode("ascii", "ignore").decode()


def to_pattern(w):
    """A pattern (in an iso-8859-1 file) matching exactly the text w."""
    out = ""
    for c in w:
        o = ord(c)
        if o < 128 and (c.isalnum()):
            out += c
        elif c == " ":
            out += "\\s+"
        elif o < 128:
            out += "\\" + c
        else:
            out += "\\u%04x" % o
    return out


def squash(s):
    return " ".join(s.split())


def decoded(h):
    if h["kind"] == "text":
        return h["dec"]
    out = []
    for r, (d, a) in zip(h["raw"].split(","), h["addrs"]):
        r = r.strip()
        if r.startswith("=?"):
            r = "%s <%s>" % (d, a)
        out.append(r)
    return ", ".join(out)


def named(hs, name):
    return [h for h in hs if h["name"].lower() == name.lower()]


def first_addr(h):
    if h["kind"] == "addr":
        return h["addrs"][0][1]
    return None


def first_name(h):
    if h["kind"] == "addr":
        for d, a in h["addrs"]:
            if d:
                return d
    return None


def has(word, text, anchor):
    text = squash(text)
    return text.startswith(word) if anchor else word in text


def expect(rule, case):
    top = case["top"]
    k, name, w, anchor = rule["kind"], rule["name"], rule["word"], rule["anchor"]
    if k == "plain":
        return any(has(w, decoded(h), anchor) for h in named(top, name))
    if k == "neg":
        return any(not has(w, decoded(h), anchor) for h in named(top, name))
    if k == "raw":
        return any(has(w, h["raw"], anchor) for h in named(top, name))
    if k == "addr":
        return any(has(w, first_addr(h), anchor) for h in named(top, name))
    if k == "name":
        return any(has(w, first_name(h), anchor) for h in named(top, name) if first_name(h))
    if k == "exists":
        return bool(named(top, name))
    if k == "tocc":
        return any(has(w, decoded(h), anchor) for n in ("to", "cc") for h in named(top, n))
    if k == "messageid":
        return any(has(w, decoded(h), anchor)
                   for n in ("message-id", "resent-message-id", "x-message-id") for h in named(top, n))
    if k == "all":
        # the name is part of what is searched
        return any(w in squash(h["name"] + ": " + decoded(h)) for h in top)
    hs = list(top)
    for p in case["parts"]:
        hs += p
    if case["nested"] is not None:
        hs += case["nested"]
    if k == "mime":
        return any(has(w, decoded(h), anchor) for h in named(hs, name))
    return any(has(w, h["raw"], anchor) for h in named(hs, name))


def rule_line(n, rule):
    k = rule["kind"]
    p = ("^\\s*" if rule["anchor"] and k != "all" else "") + to_pattern(rule["word"])
    p = "/" + p.replace("/", "\\/") + "/"
    if k in ("plain", "neg"):
        return "header %s %s %s %s" % (n, rule["name"], "=~" if k == "plain" else "!~", p)
    if k in ("raw", "addr", "name"):
        return "header %s %s:%s =~ %s" % (n, rule["name"], k, p)
    if k == "exists":
        return "header %s exists:%s" % (n, rule["name"])
    if k == "tocc":
        return "header %s ToCc =~ %s" % (n, p)
    if k == "messageid":
        return "header %s MESSAGEID =~ %s" % (n, p)
    if k == "all":
        return "header %s ALL =~ %s" % (n, p)
    return "mimeheader %s %s%s =~ %s" % (n, rule["name"], ":raw" if k == "mimeraw" else "", p)


def run(case, obs):
    rules = []
    for r in case["rules"]:
        # text headers have no well-defined first address
        if r["kind"] in ("addr", "name") and any(h["kind"] == "text" for h in named(case["top"], r["name"])):
            r = dict(r, kind="plain")
        if r["kind"] in ("plain", "neg", "raw") and r["name"] in ("ToCc", "ALL", "MESSAGEID"):
            r = dict(r, kind="exists")
        if r["kind"] in ("raw", "mimeraw") and "=?" in r["word"]:
            continue
        rules.append(r)
    cf = "".join(rule_line("R%d" % n, r) + "\n" for n, r in enumerate(rules))
    if case["oip"]:
        cf += "originating_ip_headers X-Originating-IP X-Beta\n"
    raw = build(case)
    if case["crlf"]:
        raw = raw.replace("\n", "\r\n")
    with oah.lazy(case["lazy"]):
        rs, _ = oah.load(cf, lazy_mode=case["lazy"])
        missing = [n for n in range(len(rules)) if "R%d" % n not in rs.checked]
        obs.expect(not missing, "rule-not-loaded", "rules %s not loaded from %s", missing, cf)
        msg = oah.scan(rs, raw)
    got, want = [], []
    for n, r in enumerate(rules):
        g = bool(msg.rules_checked.get("R%d" % n))
        w = expect(r, case)
        got.append(g)
        want.append(w)
        obs.count("kind_" + r["kind"])
        if w:
            obs.count("hit_" + r["kind"])
        if g != w:
            obs.violation("header-" + r["kind"], "%s: oa says %s, expected %s, message:\n%s" % (
                rule_line("R", r), g, w, raw))
    obs.count("rules_compared", len(rules))
    if len(set(want)) > 1:
        obs.nontrivial(cf, raw)
    obs.sample({"rules": cf.split("\n")[:4], "message": raw[:400], "hits": want[:4]})


if __name__ == "__main__":
    req = {"rules_compared": 20000}
    for k in ["plain", "raw", "addr", "name", "exists", "tocc", "messageid", "all", "mime", "mimeraw", "neg"]:
        req["hit_" + k] = 60
        req["kind_" + k] = 300
    core.main("C05", gen, run, (16000, 250000),
              "generated messages (repeated, folded, RFC 2047 encoded, oddly cased headers; the same "
              "words in body, preamble, parts and nested message) x 4-12 header rules of every kind; "
              "distinct = cases with both hits and misses",
              require=req)
