"""C26: the URIs of a message and the details of its links, by construction of the message."""
import copy
import ipaddress
import random
import re
import urllib.parse

from vh import core, oah
from checks import c06

WORDS = ["alpha", "bravo", "click", "here", "offer", "now", "login", "free", "x1", "Q", "tail"]
HOSTS = ["example.com", "www.example.org", "a-b.example.net", "EXAMPLE.Info", "10.1.2.3", "192.0.2.7",
         "sub.domain.example.biz", "h.example", "xn--bcher-kva.example", "203.0.113.250"]
DECOYS = ["xhttp://decoy.example/", "http:/one.example", "www.", "www..decoy.example", "ftp.", "http://",
          "mailto:joe@example.com", "awww.decoy.example", "httpx://decoy.example", "https:", "ftp:x",
          "joe@www", "1ftp://decoy.example/", "decoy.example/www", "htp://decoy.example", "wwwdecoy.example"]
ENT = {"&amp;": "&", "&lt;": "<", "&#65;": "A", "&#x42;": "B", "&eacute;": "\u00e9", "&quot;": '"'}
PLUGINS = """loadplugin oa.plugins.uri_detail.URIDetailPlugin
loadplugin oa.plugins.uri_eval.URIEvalPlugin
"""


def path(rng):
    out = ""
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        out += "/" + rng.choice(["a", "login", "x_y", "%41b", "z%2Fq", "~joe", "f.php", "(p)", "v;w", "100%25", "a+b"])
    if rng.random() < 0.3:
        out += "/"
    if rng.random() < 0.3:
        out += "?" + rng.choice(["id=1", "a=%20b", "q=1;r=2", "k=[v]", "u=a@b"])
    if rng.random() < 0.15:
        out += "#" + rng.choice(["top", "x%2e"])
    return out


def uri(rng):
    """A URI as it would be written in a text."""
    r = rng.random()
    host = rng.choice(HOSTS)
    if rng.random() < 0.1:
        host = rng.choice(["joe@", "u:p@"]) + host
    if rng.random() < 0.1:
        host += rng.choice([":80", ":8443"])
    if r < 0.7:
        return rng.choice(["http", "https", "ftp", "HTTP", "Https", "http", "https"]) + "://" + host + path(rng)
    if r < 0.85:
        return rng.choice(["www.", "WWW.", "ftp.", "wWw."]) + rng.choice(["example.com", "x.example.org", "a1"]) + path(rng)
    h1, h2 = rng.choice(HOSTS), rng.choice(HOSTS)
    return "http%s://%s/go%s%s" % (rng.choice(["", "s"]), h1, rng.choice(["/", "?u=", "/r.php?url=", "/=/"]),
                                   "http%s://%s%s" % (rng.choice(["", "s"]), h1 if rng.random() < 0.4 else h2,
                                                      rng.choice(["", "/", "/x"])))


def gen_plain(rng):
    items = []
    for _ in range(rng.randint(1, 10)):
        r = rng.random()
        if r < 0.45:
            # (before, uri, after): the characters that delimit it
            before, after = rng.choice([("", ""), ("", ""), ("<", ">"), ('"', '"'), ("'", "'"), ("(", " )"), ("\t", "\t"),
                                        (":", ""), ("=", ""), ("-", ""), (">", "<"[:0]), ("", '"'), (",", "\u00e9x")])
            items.append(["uri", before, uri(rng), after])
        elif r < 0.6:
            items.append(["txt", rng.choice(DECOYS)])
        elif r < 0.65:
            items.append(["anchor"] + gen_anchor(rng))
        else:
            items.append(["txt", rng.choice(WORDS)])
        items.append(["sep", rng.choice([" ", " ", "\n", "  ", "\n\n"])])
    return items


def gen_text(rng):
    """Text of an anchor as pieces: (markup, text seen)."""
    out = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        r = rng.random()
        if r < 0.5:
            w = rng.choice(WORDS)
            out.append([w, w])
        elif r < 0.62:
            u = rng.choice(["https://", "http://", "https://"]) + rng.choice(HOSTS) + rng.choice(["", "/p", "/login/x"])
            out.append([u, u])
        elif r < 0.8:
            t = rng.choice(["b", "i", "SPAN", "font"])
            w = rng.choice(WORDS)
            out.append(["<%s>%s</%s>" % (t, w, t), w])
        elif r < 0.9:
            e = rng.choice(sorted(ENT))
            out.append([e, ENT[e]])
        else:
            out.append([rng.choice(["<br>", "<!-- note -->", "<img src='pic.gif' alt='x'>"]), ""])
        if rng.random() < 0.7:
            out.append([" ", " "])
    return out


def gen_anchor(rng):
    r = rng.random()
    if r < 0.7:
        target = uri(rng)
    elif r < 0.8:
        target = rng.choice(["mailto:joe@example.com", "/relative/path", "page.html", "#frag", "//proto.example/x",
                             "javascript:void(0)", "tel:+123", "cid:part1@x"])
    elif r < 0.85:
        target = rng.choice(["http://[bad/", "http://[::1/x", "https://[zz]x]/"])
    elif r < 0.9:
        target = rng.choice(["", None])
    elif r < 0.93:
        target = "http://long.example/" + "y" * rng.choice([8100, 8173, 8180, 9000])
    else:
        target = "http://" + rng.choice(HOSTS) + "/?a=1&b=2"
    tag = rng.choice(["a", "a", "a", "A", "link", "a"])
    q = rng.choice(['"', "'", ""])
    if target is not None and (not target or any(c in target for c in " '\"<>=`")):
        q = q or '"'
    attr = rng.choice(["href", "HREF", "href", "src"]) if tag == "link" else rng.choice(["href", "Href", "href"])
    pre = rng.choice(["", "class=x ", "title='http://title.example/' ", "\nid=\"q r\" ", "data-x "])
    post = rng.choice(["", " target=_blank", " rel='nofollow'"])
    return [tag, attr, q, target, pre, post, gen_text(rng) if tag != "link" else []]


def gen_html(rng):
    items = [["raw", rng.choice(["<html><body>", "<HTML>", "", "<p>"])]]
    for _ in range(rng.randint(1, 8)):
        r = rng.random()
        if r < 0.6:
            a = gen_anchor(rng)
            old = [i for i in items if i[0] == "anchor" and i[4]]
            if old and rng.random() < 0.25:
                a[3], a[2] = rng.choice(old)[4], '"'
            items.append(["anchor"] + a)
        elif r < 0.7:
            items.append(["uri", rng.choice(["", ">"[:0]]), uri(rng), ""])
        elif r < 0.75:
            items.append(["img", uri(rng)])
        elif r < 0.8:
            items.append(["comment", uri(rng)])
        elif r < 0.85:
            items.append(["raw", "<a name='here'>" + rng.choice(WORDS) + "</a>"])
        elif r < 0.9:
            items.append(["txt", rng.choice(DECOYS)])
        else:
            items.append(["txt", rng.choice(WORDS)])
        items.append(["sep", rng.choice([" ", "\n", " <br> ", "</p>\n<p>", " "])])
    if rng.random() < 0.15:
        a = gen_anchor(rng)
        if a[0] != "link":
            items.append(["open"] + a)
    elif rng.random() < 0.5:
        items.append(["raw", "</body></html>"])
    return items


def gen(rng, i, tier):
    parts = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        html = rng.random() < 0.6
        parts.append({"html": html, "items": gen_html(rng) if html else gen_plain(rng),
                      "enc": rng.choice(["base64", "qp", "BASE64", "qp", "8bit"]), "wrap": rng.choice([40, 57, 76]),
                      "cs": rng.choice(["utf-8", "utf-8", "iso-8859-1"])})
    for p in parts[:-1]:
        # an anchor nobody closes goes on in the next part: not specified
        p["items"] = [x for x in p["items"] if x[0] != "open"]
    return {"parts": parts, "seed": rng.randint(0, 1 << 30), "lazy": rng.random() < 0.5,
            "layout": rng.choice(["mixed", "alternative", "nested"])}


def esc(target):
    return target.replace("&", "&amp;")


class Model(object):
    def __init__(self):
        self.uris = set()
        self.links = []      # [type, raw, [texts]]

    def anchor(self, tag, target, text):
        if not target:
            return
        tag = tag.lower()
        for l in self.links:
            if l[0] == tag and l[1] == target:
                break
        else:
            l = [tag, target, []]
            self.links.append(l)
        if text:
            l[2].append(text)


def uris_in(target):
    """The URI a quoted target shows to a reader of the text."""
    t = target.lower()
    return t.startswith(("http://", "https://", "ftp://")) or (
        t[:4] in ("www.", "ftp.") and len(t) > 4 and t[4] not in ".")


def render_anchor(a, m, closed=True):
    tag, attr, q, target, pre, post, text = a
    if target is None:
        body = "<%s %s%s%s>" % (tag, pre, attr, post)
    else:
        body = "<%s %s%s=%s%s%s%s>" % (tag, pre, attr, q, esc(target), q, post)
    if "title.example" in pre:
        m.uris.add("http://title.example/")
    if target and uris_in(target):
        m.uris.add(esc(target))
    for k, (markup, seen) in enumerate(text):
        if seen.startswith("http"):
            # glued to what follows unless a blank or a tag ends it
            glued = markup
            for mk, _ in text[k + 1:]:
                cut = min([mk.find(c) for c in " <" if c in mk] or [len(mk)])
                glued += mk[:cut]
                if cut < len(mk):
                    break
            before = text[k - 1][0] if k else ">"
            if before[-1:].isalnum():
                continue
            m.uris.add(glued)
    seen = "".join(s for _, s in text)
    m.anchor(tag, target, seen)
    markup = "".join(mk for mk, _ in text)
    if tag == "link":
        return body
    return body + markup + ("</%s>" % tag if closed else "")


def render(part, m):
    out = ""
    for it in part["items"]:
        if it[0] == "uri":
            out += it[1] + it[2] + it[3]
            m.uris.add(it[2])
        elif it[0] in ("txt", "sep", "raw"):
            out += it[1]
        elif it[0] == "img":
            out += '<img alt="" src="%s">' % it[1]
            m.uris.add(it[1])
        elif it[0] == "comment":
            out += '<!-- <a href="%s">hidden</a> -->' % it[1]
            m.uris.add(it[1])
        elif it[0] == "anchor":
            out += render_anchor(it[1:], m)
        else:
            out += render_anchor(it[1:], m, closed=False)
    if out[-1:] and not part["items"][-1][0] == "open":
        out += "\n"
    return out


def fix_glue(case):
    """Texts of anchors in which a URI follows a word character directly are not URIs: keep the blank."""
    for p in case["parts"]:
        for it in p["items"]:
            if it[0] in ("anchor", "open"):
                text = it[7]
                out = []
                for k, (mk, seen) in enumerate(text):
                    if seen.startswith("http") and out and (out[-1][0][-1:].isalnum() or out[-1][0].startswith("http")):
                        out.append([" ", " "])
                    out.append([mk, seen])
                    if seen.startswith("http"):
                        out.append([" ", " "])
                it[7] = out


def record(kind, raw, texts):
    scheme = domain = ""
    rest = raw
    head, sep, tail = raw.partition(":")
    if sep and head.isalnum() and head[0].isalpha():
        scheme, rest = head.lower(), tail
    if rest.startswith("//"):
        domain = rest[2:]
        for c in "/?#":
            domain = domain.split(c, 1)[0]
    if "[" in domain or "]" in domain:
        scheme = domain = None      # not a valid location: not specified
    out = {"kind": kind, "raw": raw, "cleaned": urllib.parse.unquote(raw), "domain": domain, "scheme": scheme}
    if texts is not None:
        out["text"] = texts
    return out


def lit(s):
    return "".join(c if c.isalnum() and ord(c) < 128 else "\\x%02x" % ord(c) if c != "/" else "\\/" for c in s)


def make_condition(rng, recs):
    """-> (config text, predicate(record) -> True/False/None)."""
    key = rng.choice(["raw", "cleaned", "domain", "scheme", "text", "text", "domain"])
    pool = [r for r in recs if r.get(key)]
    neg = rng.random() < 0.25
    if pool and rng.random() < 0.9:
        v = rng.choice(pool)[key]
        if isinstance(v, list):
            v = rng.choice(v)
    else:
        v = rng.choice(["zzz", "example", "https", "a"])
    mode = rng.choice(["in", "start", "end", "full", "in"])
    if len(v) > 60:
        mode, v = "in", v[:30]
    if mode == "in" and len(v) > 2:
        a = rng.randint(0, len(v) - 2)
        v = v[a:rng.randint(a + 1, len(v))]
    elif mode == "start":
        v = v[:rng.randint(1, len(v))]
    elif mode == "end":
        v = v[-rng.randint(1, len(v)):]
    if any(ord(c) > 126 or ord(c) < 32 for c in v):
        v = "a"
    flag = rng.random() < 0.3
    if flag:
        v = v.swapcase()
    pat = ("^" if mode in ("start", "full") else "") + lit(v) + ("$" if mode in ("end", "full") else "")
    if "\\/" in pat and rng.random() < 0.3:
        pat = pat.replace("\\/", ".")
        dot = True
    else:
        dot = False
    conf = "%s %s /%s/%s" % (key, "!~" if neg else "=~", pat, "i" if flag else "")

    def one(s):
        if "\n" in s:
            return None if mode != "in" else holds(s)
        return holds(s)

    def holds(s):
        t = v
        if flag:
            s, t = s.lower(), t.lower()
        if dot:
            return bool(re.search(pat, s, re.I if flag else 0))
        return {"in": t in s, "start": s.startswith(t), "end": s.endswith(t), "full": s == t}[mode]

    def pred(rec):
        if key not in rec:
            return False
        val = rec[key]
        if val is None:
            return None
        vals = val if isinstance(val, list) else [val]
        rs = [one(s) for s in vals]
        if None in rs:
            return None
        return (not any(rs)) if neg else any(rs)
    return conf, pred


def is_ip(s):
    try:
        ipaddress.ip_address(s)
        return True
    except ValueError:
        return False


def run(case, obs):
    rng = random.Random(case["seed"])
    case = copy.deepcopy(case)
    fix_glue(case)
    m = Model()
    nodes = []
    for p in case["parts"]:
        text = render(p, m)
        cs = p["cs"]
        nodes.append({"t": "text", "text": text, "cs": "utf-8" if p["enc"] == "8bit" else cs, "html": p["html"],
                      "enc": p["enc"], "inner_eol": "\n", "quote": False, "attach": False, "wrap": p["wrap"],
                      "case": False, "nohdr": False, "subtype": "html" if p["html"] else "plain"})
    node = nodes[0]
    if len(nodes) > 1:
        if case["layout"] == "nested":
            node = {"t": "multi", "sub": "mixed", "kids": [nodes[0], {"t": "multi", "sub": "alternative", "kids": nodes[1:]}]}
        else:
            node = {"t": "multi", "sub": case["layout"], "kids": nodes}
    h, b = c06.build(node)
    raw = "From: a@example.com\nSubject: see www.subject.example\nMIME-Version: 1.0\n" + h + "\n" + b
    recs = [record(t, target, texts) for t, target, texts in m.links]
    targets = set(l[1] for l in m.links)
    recs += [record("parsed", u, None) for u in sorted(m.uris - targets)]

    rules, want = [], {}
    for n in range(14):
        conds = [make_condition(rng, recs) for _ in range(rng.choice([1, 1, 2, 2, 3, 4]))]
        name = "D%d" % n
        rules.append("uri_detail %s %s" % (name, " ".join(c for c, _ in conds)))
        val = False
        for rec in recs:
            if rec["kind"] == "link" and any(c.startswith("text") for c, _ in conds):
                v = None if all(p(rec) in (True, None) for c, p in conds if not c.startswith("text")) else False
            else:
                vs = [p(rec) for _, p in conds]
                v = False if False in vs else None if None in vs else True
            if v is True:
                val = True
                break
            if v is None:
                val = None
        want[name] = val
        obs.seen("conditions", len(conds))
    score = {}
    for n in sorted(want):
        if rng.random() < 0.5:
            score[n] = rng.choice([0.25, 2.5, -1.5, 3.0])
            rules.append("score %s %s" % (n, score[n]))
    # the URI list
    shorts = sorted(u for u in m.uris if len(u) < 200)
    for n, u in enumerate(rng.sample(shorts, min(6, len(shorts)))):
        rules.append("uri U%d /^%s$/" % (n, lit(u)))
        want["U%d" % n] = True
    rules.append("uri UD /decoy|subject|hidden/")
    want["UD"] = False
    # eval rules
    rules += ["body EI eval:check_https_ip_mismatch()", "body ER eval:check_for_http_redirector()",
              "body ET eval:check_uri_truncated()"]
    want["ET"] = any(r["kind"] in ("a", "link") and len(r["raw"]) > 8192 for r in recs)
    ip = False
    for r in recs:
        if r["kind"] == "a" and is_ip(r["domain"] or "x"):
            for t in r["text"]:
                for tok in t.split():
                    if tok.startswith("https://") and not is_ip(record("p", tok, None)["domain"] or ""):
                        ip = True
    want["EI"] = ip
    red = False
    for u in m.uris:
        low = u
        pos = [k for k in range(len(low)) if low.startswith(("http://", "https://"), k)]
        if len(pos) > 1 and pos[0] == 0:
            if record("p", u[:pos[1]], None)["domain"] != record("p", u[pos[1]:], None)["domain"]:
                red = True
    want["ER"] = red
    cf = PLUGINS + "\n".join(rules) + "\n"
    with oah.lazy(case["lazy"]):
        rs, _ = oah.load(cf, lazy_mode=case["lazy"])
        msg = oah.scan(rs, raw)
    total = 0.0
    for n in sorted(want):
        obs.expect(n in rs.checked, "rule-not-loaded", "%s not loaded: %s", n, [r for r in rules if " %s " % n in r])
        got = bool(msg.rules_checked.get(n))
        if got:
            total += score.get(n, 1.0)
        if want[n] is None:
            obs.count("unspecified")
            continue
        obs.count("rules_compared")
        obs.count(("hit_" if want[n] else "miss_") + n[0] + (n[1] if n[0] == "E" else ""))
        if got != want[n]:
            mech = {"D": "uri-detail", "U": "uri-rule", "E": "uri-eval"}[n[0]]
            mech += "-missed" if want[n] else "-extra"
            obs.violation(mech, "%s: hit %s, expected %s: %s; records %s" % (
                n, got, want[n], [r for r in rules if " %s " % n in r or r.startswith("uri %s " % n)],
                [(r["kind"], r["raw"][:80], r.get("text")) for r in recs]))
    obs.expect(abs(total - msg.score) < 0.006, "uri-detail-score", "score %s, the hit rules sum to %s: %s",
               msg.score, total, rules)
    listed = set(msg.uri_list)
    obs.count("uris_listed", len(listed))
    for u in sorted(m.uris - listed)[:3]:
        obs.violation("uri-lost", "%r is in the text but not in the list %s" % (u, [x[:80] for x in sorted(listed)]))
    for u in sorted(listed - m.uris)[:3]:
        obs.violation("uri-invented", "%r listed, the text contains %s" % (u, [x[:80] for x in sorted(m.uris)]))
    for r in recs:
        obs.count("record_" + r["kind"])
        if r.get("text") and len(r["text"]) > 1:
            obs.count("targets_of_several_anchors")
    obs.nontrivial(tuple(sorted(want.items(), key=str)), len(recs), case["layout"])
    if len(recs) > 2:
        obs.sample({"rule": rules[0], "hit": want["D0"], "links": [(r["kind"], r["raw"][:60]) for r in recs[:4]]})


if __name__ == "__main__":
    core.main("C26", gen, run, (4000, 120000),
              "one message with built-in URIs and links per case: list, records and rule hits against its construction",
              require={"hit_D": 500, "miss_D": 500, "hit_U": 500, "hit_EI": 20, "miss_EI": 100, "hit_ER": 50,
                       "miss_ER": 100, "hit_ET": 20, "record_a": 500, "record_link": 50, "record_parsed": 300,
                       "targets_of_several_anchors": 30})
