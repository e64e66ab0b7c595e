"""C06: the body/rawbody/full/uri views of a message against the text it was built from."""
import base64
import quopri

from vh import core, oah

CHARSETS = ["us-ascii", "utf-8", "iso-8859-1", "iso-8859-2", "koi8-r", "windows-1251", "utf-16",
            "shift_jis", "gb2312", "euc-kr", "iso-2022-jp", "UTF-8", "big5", "cp1252"]
POOL = {
    "us-ascii": ["alpha", "bravo", "charlie", "delta", "echo", "foxtrot", "a=3Db", "x=y", "From", "--", ".",
                 "=20", "1+1", "~", "tail="],
    "latin": ["caf\u00e9", "z\u00fcrich", "\u00e9t\u00e9", "gar\u00e7on"],
    "latin2": ["\u0141\u00f3d\u017a", "\u010de\u0161tina"],
    "cyr": ["\u043c\u043e\u0441\u043a\u0432\u0430", "\u0441\u043f\u0430\u043c"],
    "cjk": ["\u6771\u4eac", "\u5927"],
    "kor": ["\ud55c\uad6d"],
}
SUPPORT = {"us-ascii": [], "utf-8": ["latin", "latin2", "cyr", "cjk", "kor"], "UTF-8": ["latin", "cyr", "cjk"],
           "iso-8859-1": ["latin"], "cp1252": ["latin"], "iso-8859-2": ["latin2"], "koi8-r": ["cyr"],
           "windows-1251": ["cyr"], "utf-16": ["latin", "cyr", "cjk"], "shift_jis": ["cjk", "cyr"],
           "gb2312": ["cyr"], "euc-kr": ["kor"], "iso-2022-jp": ["cjk"], "big5": ["cjk"]}
URIS = ["http://www.example.com/a?b=c&d=e", "https://example.org", "ftp://ftp.example.net/x.zip",
        "www.example.info/path", "ftp.example.biz/z", "http://10.1.2.3/q#f", "HTTPS://EXAMPLE.COM/UP",
        "http://a.example/%41~x"]
TAGS = ["<b>", "</b>", "<p>", "<br>", "<br/>", "<i class=\"x y\">", "</i>", "<!-- hidden words -->",
        "<div style='color: red'>", "</div>", "<td width=10>", "</td>"]


def line(rng, cs):
    words = []
    pools = SUPPORT[cs]
    for _ in range(rng.randint(0, 8)):
        if pools and rng.random() < 0.4:
            words.append(rng.choice(POOL[rng.choice(pools)]))
        else:
            words.append(rng.choice(POOL["us-ascii"]))
    return words


def gen_text(rng):
    cs = rng.choice(CHARSETS)
    html = rng.random() < 0.35
    lines = []
    for _ in range(rng.randint(1, 6)):
        l = line(rng, cs)
        if html:
            l = [w.replace("&", "and") for w in l]
            for _ in range(rng.randint(0, 3)):
                l.insert(rng.randint(0, len(l)), rng.choice(TAGS))
        if rng.random() < 0.25:
            l.insert(rng.randint(0, len(l)), rng.choice(URIS[1:] if html else URIS))
        sep = rng.choice([" ", " ", "  "])
        lines.append(sep.join(l))
    text = "\n".join(lines) + rng.choice(["", "\n", "\n\n"])
    enc = rng.choice(["7bit", "8bit", "qp", "base64", "qp", "base64", None, "QP", "BASE64"])
    if cs in ("utf-16",) and enc not in ("base64", "BASE64"):
        enc = "base64"
    if cs not in ("us-ascii", "utf-8", "UTF-8") and enc in ("7bit", "8bit", None):
        enc = rng.choice(["qp", "base64"])
    return {"t": "text", "text": text, "cs": cs, "html": html, "enc": enc,
            "inner_eol": rng.choice(["\n", "\r\n", "\n"]), "quote": rng.random() < 0.5,
            "attach": rng.random() < 0.15, "wrap": rng.choice([19, 57, 76]),
            "case": rng.random() < 0.2, "nohdr": cs == "us-ascii" and rng.random() < 0.2,
            "subtype": "html" if html else rng.choice(["plain", "plain", "plain", "x-foo", "calendar"])}


def gen_node(rng, depth):
    r = rng.random()
    if depth <= 0 or r < 0.5:
        return gen_text(rng)
    if r < 0.65:
        return {"t": "bin", "ctype": rng.choice(["application/octet-stream", "image/png", "audio/x-wav",
                                                 "application/pdf", "x-text/plain"]),
                "data": base64.b64encode(bytes(rng.choice(b"alphabrvo .\n\xff\x00") for _ in range(rng.randint(0, 80)))).decode()}
    if r < 0.75:
        return {"t": "msg", "subject": "nested subject", "node": gen_node(rng, depth - 1)}
    return {"t": "multi", "sub": rng.choice(["mixed", "alternative", "related", "digest" if False else "mixed"]),
            "kids": [gen_node(rng, depth - 1) for _ in range(rng.randint(1, 3))]}


def gen(rng, i, tier):
    node = gen_node(rng, rng.choice([0, 1, 2, 3]))
    return {"node": node, "subject": [" ".join(rng.choice(POOL["us-ascii"][:6]) for _ in range(rng.randint(1, 4)))
                                      for _ in range(rng.choice([0, 1, 1, 1, 2]))],
            "eol": rng.choice(["\n", "\n", "\r\n", "\r", "mixed"]), "seed": rng.randint(0, 1 << 30),
            "lazy": rng.random() < 0.6}


def qp(raw, wrap):
    """Quoted-printable written from RFC 2045, with random-ish soft breaks."""
    out, col = [], 0
    for idx, b in enumerate(raw):
        c = chr(b)
        nxt = raw[idx + 1:idx + 2]
        if c == "\n":
            out.append("\n")
            col = 0
            continue
        if (33 <= b <= 126 and c != "=") or (c in " \t" and nxt not in (b"\n", b"", b"\r")):
            tok = c
        else:
            tok = "=%02X" % b
        if col + len(tok) > wrap:
            out.append("=\n")
            col = 0
        out.append(tok)
        col += len(tok)
    return "".join(out)


def encode_part(p):
    text = p["text"]
    hdr = ""
    if not p["nohdr"]:
        ctype = "text/" + p["subtype"]
        if p["case"]:
            ctype = ctype.upper()
        cs = '"%s"' % p["cs"] if p["quote"] else p["cs"]
        hdr += "Content-Type: %s; charset=%s\n" % (ctype, cs)
    enc = p["enc"]
    if p["nohdr"] and p["html"]:
        hdr = "Content-Type: text/html\n"
    if p["attach"]:
        hdr += "Content-Disposition: attachment; filename=\"notes.txt\"\n"
    if enc in (None, "7bit", "8bit"):
        if enc:
            hdr += "Content-Transfer-Encoding: %s\n" % enc
        return hdr, text
    raw = text.encode(p["cs"])
    if enc.lower() == "qp":
        hdr += "Content-Transfer-Encoding: %s\n" % ("quoted-printable" if enc == "qp" else "Quoted-Printable")
        return hdr, qp(raw, p["wrap"])
    hdr += "Content-Transfer-Encoding: %s\n" % ("base64" if enc == "base64" else "Base64")
    raw = text.replace("\n", p["inner_eol"]).encode(p["cs"])
    b = base64.b64encode(raw).decode()
    w = p["wrap"]
    w -= w % 4 or 0
    return hdr, "\n".join(b[k:k + w] for k in range(0, len(b), w)) + "\n"


def build(node, path="0"):
    """(headers, body) of the node."""
    if node["t"] == "text":
        return encode_part(node)
    if node["t"] == "bin":
        return ("Content-Type: %s\nContent-Transfer-Encoding: base64\n" % node["ctype"], node["data"] + "\n")
    if node["t"] == "msg":
        h, b = build(node["node"], path + "m")
        return ("Content-Type: message/rfc822\n",
                "From: n@example.com\nSubject: %s\nMIME-Version: 1.0\n%s\n%s" % (node["subject"], h, b))
    bd = "=_b%s" % path
    out = "This is a preamble bravo http://preamble.example.com/\n"
    for k, kid in enumerate(node["kids"]):
        h, b = build(kid, path + "." + str(k))
        out += "--%s\n%s\n%s\n" % (bd, h, b)
    out += "--%s--\nepilogue charlie http://epilogue.example.com/\n" % bd
    return 'Content-Type: multipart/%s; boundary="%s"\n' % (node["sub"], bd), out


def texts(node):
    if node["t"] == "text":
        return [node]
    if node["t"] == "msg":
        return texts(node["node"])
    if node["t"] == "multi":
        return sum((texts(k) for k in node["kids"]), [])
    return []


def squash(s):
    return " ".join(s.split())


def strip_tags(text):
    for t in TAGS:
        text = text.replace(t, " ")
    return text


def pattern(w):
    return "".join(c if c.isalnum() and ord(c) < 128 else ("\\u%04x" % ord(c) if ord(c) > 127 else "\\" + c)
                   for c in w)


def run(case, obs):
    import random
    rng = random.Random(case["seed"])
    h, b = build(case["node"])
    raw = "From: a@example.com\n" + "".join("Subject: %s\n" % s for s in case["subject"]) + "MIME-Version: 1.0\n" + h + "\n" + b
    unix = raw
    if case["eol"] == "mixed":
        raw = "".join(c if c != "\n" else rng.choice(["\n", "\r\n"]) for c in raw)
    else:
        raw = raw.replace("\n", case["eol"])
    parts = texts(case["node"])
    # what rules should be able to see
    body = squash(" ".join(case["subject"] + [strip_tags(p["text"]) if p["html"] else p["text"] for p in parts]))
    rawbody = [p["text"] for p in parts]
    uris = set()
    for p in parts:
        for tok in strip_tags(p["text"]).split():
            if tok in URIS:
                uris.add(tok)
    words = set()
    for v in POOL.values():
        words.update(v)
    rules, want = [], {}
    probes = [w for w in rng.sample(sorted(words), 6)]
    bw = body.split()
    for _ in range(4):
        if len(bw) > 3:
            k = rng.randint(0, len(bw) - 2)
            probes.append(" ".join(bw[k:k + rng.choice([1, 2, 2, 3])]))
    for n, w in enumerate(probes):
        rules.append("body B%d /%s/" % (n, pattern(w).replace("\\ ", "\\s+")))
        want["B%d" % n] = w in body
    rprobes = rng.sample(sorted(words), 4) + rng.sample(TAGS, 2)
    for p in parts[:3]:
        ls = p["text"].split("\n")
        if len(ls) > 2:
            k = rng.randint(0, len(ls) - 2)
            rprobes.append(ls[k] + "\n" + ls[k + 1])
    rprobes = [r for r in rprobes if r.strip()]
    for n, w in enumerate(rprobes):
        rules.append("rawbody W%d /%s/" % (n, pattern(w).replace("\\\n", "\\n").replace("\\#", "\\x23")))
        want["W%d" % n] = any(w in t for t in rawbody) or w in "\n".join(rawbody)
    for n, u in enumerate(URIS):
        rules.append("uri U%d /^%s$/" % (n, pattern(u).replace("\\#", "\\x23")))
        want["U%d" % n] = u in uris
    rules.append("uri UP /preamble|epilogue/")
    want["UP"] = False
    lines = [l for l in unix.split("\n") if l.strip()]
    for n in range(4):
        l = rng.choice(lines)
        rules.append("full F%d /^%s$/m" % (n, pattern(l).replace("\\#", "\\x23")))
        want["F%d" % n] = True
    rules.append("full F9 /\\r/")
    want["F9"] = False
    rules.append("full F8 /zzznotthere/")
    want["F8"] = False
    cf = "\n".join(rules) + "\n"
    with oah.lazy(case["lazy"]):
        rs, _ = oah.load(cf, lazy_mode=case["lazy"])
        msg = oah.scan(rs, raw)
    for n in sorted(want):
        obs.expect(n in rs.checked, "rule-not-loaded", "%s not loaded", n)
        got = bool(msg.rules_checked.get(n))
        obs.count("rules_compared")
        if want[n]:
            obs.count("hit_" + n[0])
        if got != want[n]:
            line_ = [r for r in rules if r.split()[1] == n][0]
            obs.violation("view-" + {"B": "body", "W": "rawbody", "U": "uri", "F": "full"}[n[0]],
                          "%s: oa says %s, expected %s\ntext=%r\nraw_text=%r\nexpected body %r\nmessage %r" % (
                              line_, got, want[n], msg.text, msg.raw_text, body, raw))
    # the whole views
    obs.expect(squash(msg.text) == body, "body-view", "text is %r, expected %r; message %r", msg.text, body, raw)
    obs.expect("\n" not in msg.text and "\r" not in msg.text, "body-linebreak", "text %r", msg.text)
    obs.expect([l.rstrip() for l in msg.raw_text.split("\n") if l.strip()] ==
               [l.rstrip() for l in "\n".join(rawbody).split("\n") if l.strip()],
               "rawbody-view", "raw_text is %r, expected %r", msg.raw_text, rawbody)
    obs.expect(msg.raw_msg == unix.replace("\r", "\n"), "full-view", "raw_msg is %r, expected %r", msg.raw_msg, unix)
    obs.count("messages")
    for p in parts:
        obs.seen("charset_encoding", (p["cs"], p["enc"]))
    if len(parts) > 1:
        obs.count("multi_text")
    obs.count("eol_%s" % {"\n": "lf", "\r\n": "crlf", "\r": "cr", "mixed": "mixed"}[case["eol"]])
    if body:
        obs.nontrivial(raw)
    obs.sample({"message": raw[:500], "body": body[:200]})


if __name__ == "__main__":
    core.main("C06", gen, run, (12000, 200000),
              "generated MIME trees (14 charsets x 5 transfer encodings, html/plain, attachments, nested "
              "messages, 4 line ending styles) with words, lines and URIs planted and their absence "
              "probed; non-trivial = non-empty text, distinct by message",
              require={"messages": 3000, "hit_B": 2000, "hit_W": 2000, "hit_U": 500, "hit_F": 2000,
                       "charset_encoding": 40, "multi_text": 500, "eol_lf": 300, "eol_crlf": 300,
                       "eol_cr": 300, "eol_mixed": 300})
