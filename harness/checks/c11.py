"""C11: the message given back is the original, changed only as the configuration says.

Oracle: the header section and the body of the output are separated textually (not with the email
package the code under test uses), the body is compared character for character with the original,
the headers as an ordered list against the original list edited by the configured operations; for
the wrapper of report_safe 1/2 the last MIME part is cut out by its boundary and compared with the
complete original.
"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import email
import re

from vh import core, oah
from vh.mailtext import norm, split

WORDS = ["alpha", "beta", "gamma", "delta", "offer", "invoice", "free", "meeting", "z", "0", "A1"]
UNI = [u"\u017elu\u0165", u"na\u00efve", u"\u20ac5", u"\u4f60\u597d", u"\U0001f600", u"\u00a0x"]
CTL = ["\x0b", "\x0c", "\x1c", "\x1d", "\x1e", u"\x85", u"\u2028", u"\u2029", "\x01", "\x1f", "\x7f"]
NAMES = ["Info", "Level", "Status", "Flag", "info", "Report", "X"]


def text(rng, n=6, uni=0.1):
    return " ".join(rng.choice(UNI) if rng.random() < uni else rng.choice(WORDS)
                    for _ in range(rng.randrange(1, n)))


def line(rng):
    r = rng.random()
    if r < 0.08:
        return "From " + text(rng)
    if r < 0.12:
        return "."
    if r < 0.16:
        return "Subject: " + text(rng)
    if r < 0.19:
        return "--" + rng.choice(["b0", "b1", "=====", "", "b0--"])
    if r < 0.23:
        return "  " + text(rng) + "  "
    if r < 0.26:
        return "x" * rng.randrange(70, 1100)
    if r < 0.29:
        return text(rng) + "\t" + text(rng)
    if r < 0.36:
        return ""
    if r < 0.38:
        return ">From " + text(rng)
    return text(rng)


def lines(rng, n=8):
    return "\n".join(line(rng) for _ in range(rng.randrange(0, n)))


def part(rng, depth):
    """-> (headers, body) of a MIME part."""
    r = rng.random()
    if depth < 3 and r < 0.35:
        b = rng.choice(["b0", "b1", "=_x.y", "----=_Next", "a b"]) + str(depth)
        sub = [part(rng, depth + 1) for _ in range(rng.randrange(0 if rng.random() < 0.1 else 1, 4))]
        out = []
        if rng.random() < 0.4:
            out.append(text(rng) + "\n")
        for h, t in sub:
            out.append("--%s\n%s\n%s\n" % (b, "".join("%s: %s\n" % x for x in h), t))
        if rng.random() < 0.85:
            out.append("--%s--%s" % (b, "\n"))
            if rng.random() < 0.3:
                out.append(text(rng) + "\n")
        q = '"%s"' % b if " " in b or "=" in b or rng.random() < 0.6 else b
        return ([("Content-Type", "multipart/%s; boundary=%s" % (
            rng.choice(["mixed", "alternative", "related", "digest", "report"]), q))], "".join(out))
    if depth < 3 and r < 0.45:
        h, t = part(rng, depth + 1)
        inner = headers(rng) + h
        return ([("Content-Type", "message/rfc822")],
                "".join("%s: %s\n" % x for x in inner) + "\n" + t)
    if r < 0.5:
        return ([("Content-Type", "message/delivery-status")],
                "Reporting-MTA: dns; x\n\nFinal-Recipient: rfc822; a@b.c\n" + text(rng) + "\n")
    if r < 0.56:
        return ([("Content-Type", rng.choice(["multipart/mixed", "multipart/mixed; boundary=zz",
                                              "multipart/mixed; boundary=\"\"", "garbage", "text",
                                              "message/rfc822x", "message/partial",
                                              "text/plain; charset=\"\x7f\"", ""]))], lines(rng))
    if r < 0.66:
        import base64
        data = bytes(bytearray(rng.randrange(256) for _ in range(rng.randrange(0, 90))))
        return ([("Content-Type", rng.choice(["application/octet-stream", "image/png"])),
                 ("Content-Transfer-Encoding", "base64")], base64.encodebytes(data).decode("ascii"))
    if r < 0.74:
        import quopri
        data = quopri.encodestring(lines(rng).encode("utf-8")).decode("ascii")
        return ([("Content-Type", "text/plain; charset=utf-8"),
                 ("Content-Transfer-Encoding", "quoted-printable")], data)
    h = []
    if rng.random() < 0.7:
        h.append(("Content-Type", "text/%s%s" % (
            rng.choice(["plain", "html", "x-foo"]),
            rng.choice(["", "; charset=utf-8", "; charset=us-ascii", "; charset=nope",
                        "; charset=iso-8859-1"]))))
    if rng.random() < 0.3:
        h.append(("Content-Transfer-Encoding", rng.choice(["7bit", "8bit", "binary", "foo"])))
    return h, lines(rng)


def fold(rng, value):
    ws = value.split(" ")
    out = ws[0]
    for w in ws[1:]:
        out += rng.choice(["\n ", "\n\t", "\n  "]) + w if rng.random() < 0.2 else " " + w
    return out


def headers(rng, n=8):
    out = []
    for _ in range(rng.randrange(0, n)):
        r = rng.random()
        if r < 0.1:
            out.append(("Subject", fold(rng, text(rng, 12, 0.15))))
        elif r < 0.2:
            out.append(("From", rng.choice(["a@b.example", "\"X, Y\" <x@y.example>",
                                            "=?utf-8?b?xb5sdcWl?= <z@z.example>"])))
        elif r < 0.3:
            out.append(("To", rng.choice(["c@d.example", "e@f.example,\n g@h.example",
                                          "undisclosed-recipients:;"])))
        elif r < 0.36:
            out.append(("Date", "Thu, 1 Jan 2015 10:00:00 +0000"))
        elif r < 0.46:
            out.append(("X-Spam-" + rng.choice(NAMES), fold(rng, text(rng))))
        elif r < 0.5:
            out.append((rng.choice(["x-spam-", "X-SPAM-"]) + rng.choice(NAMES), text(rng)))
        elif r < 0.58:
            out.append(("Received", "from a.example (b.example [192.0.2.%d])\n\tby c.example with "
                                    "ESMTP id %s;\n Thu, 1 Jan 2015 10:00:00 +0000" % (
                                        rng.randrange(255), rng.choice(WORDS))))
        elif r < 0.62:
            out.append(("X-Empty", ""))
        elif r < 0.66:
            out.append(("X-Long", "w" * rng.randrange(60, 1200)))
        elif r < 0.7:
            out.append(("MIME-Version", "1.0"))
        elif r < 0.74:
            out.append(("X-Colon", "a: b: " + text(rng)))
        elif r < 0.76:
            # Characters that are line breaks for str.splitlines, but not in a message
            out.append((rng.choice(["X-Ctl", "Subject", "X-Ctl2"]), "".join(
                text(rng, 4) + rng.choice(CTL) + rng.choice(["", "X-Evil: ", " ", "X:"])
                for _ in range(rng.randrange(1, 4))) + text(rng, 3)))
        elif r < 0.78:
            out.append(("X-Enc", "=?iso-8859-1?q?caf=E9?= " + text(rng, 4, 0)))
        else:
            out.append(("X-H%d" % rng.randrange(9), fold(rng, text(rng, 20))))
    return out


def operations(rng):
    """Configured header operations, in configuration order per directive kind."""
    ops = []
    for _ in range(rng.randrange(0, 7)):
        who = rng.choice(["all", "spam", "ham", "ALL", "Spam"])
        name = rng.choice(NAMES)
        if rng.random() < 0.3:
            ops.append(("remove_header", who, name, None))
        else:
            ops.append(("add_header", who, name, " ".join(
                rng.choice(WORDS + ["100%", "%s", "(x)", "a_b", u"caf\xe9", "%(x)s"]) for _ in range(rng.randrange(1, 9)))))
    return ops


def gen(rng, i, tier):
    h = headers(rng)
    ph, body = part(rng, 0 if rng.random() < 0.75 else 3)
    h += ph
    rng.shuffle(h)
    spam = rng.random() < 0.55
    if spam:
        h.append(("X-Make", "spam"))
    if rng.random() < 0.02 and not spam:
        h = []
    eol = rng.choice(["\n"] * 9 + ["\r\n"] * 9 + ["\r"])
    raw = "".join("%s: %s\n" % x for x in h) + "\n" + body
    if rng.random() < 0.7 and not raw.endswith("\n"):
        raw += "\n"
    unixfrom = h and rng.random() < 0.05
    if unixfrom:
        raw = "From someone@x.example Thu Jan  1 10:00:00 2015\n" + raw
    return {"raw": raw.replace("\n", eol), "h": h, "spam": bool(spam), "ops": operations(rng),
            "safe": rng.choice([0, 1, 1, 2]), "uf": bool(unixfrom),
            "report": rng.random() < 0.7, "unsafe": rng.random() < 0.3,
            "clear": rng.random() < 0.1}


# -- comparison --------------------------------------------------------------------------
def nh(hs):
    return [(n, norm(v)) for n, v in hs]


def apply_ops(hs, ops, spam):
    """The documented editing: clear_headers resets, all first, then the ones of the verdict.

    add_header and remove_header of one class are listed separately (add before remove).
    """
    hs = list(hs)
    for cls in ("all", "spam" if spam else "ham"):
        for kind in ("add_header", "remove_header"):
            for k, who, name, value in ops:
                if k != kind or who.lower() != cls:
                    continue
                full = "X-Spam-" + name
                if k == "add_header":
                    hs.append((full, value))
                else:
                    hs = [x for x in hs if x[0].lower() != full.lower()]
    return hs


def conf(c):
    out = ["required_score 5", "report_safe %d" % c["safe"], "header MK X-Make =~ /^spam$/",
           "score MK 9", "describe MK made spam"]
    if c["report"]:
        out += ["report Spam detected on _HOSTNAME_", "report score _SCORE_ of _REQD_",
                "report _SUMMARY_"]
    if c["unsafe"]:
        out += ["unsafe_report Be careful"]
    if c["clear"]:
        out += ["add_header all Cleared yes", "remove_header all Status", "clear_headers"]
    for k, who, name, value in c["ops"]:
        out.append(" ".join(x for x in (k, who, name, value) if x is not None))
    return "\n".join(out) + "\n"


def run(case, obs):
    rs, _ = oah.load(conf(case))
    m = oah.scan(rs, case["raw"])
    spam = m.score >= 5
    if not obs.expect(spam == case["spam"], "verdict", {"score": m.score, "want": case["spam"]}):
        return
    orig = case["raw"].replace("\r\n", "\n").replace("\r", "\n")
    osplit = split(orig)
    if osplit is None:
        obs.count("unsplit")
        return
    oh, obody = osplit
    full = rs.get_adjusted_message(m)
    head = rs.get_adjusted_message(m, header_only=True)
    obs.count("messages")
    obs.count("spam" if spam else "ham")
    obs.seen("mode", "%s/%s" % (case["safe"], spam))
    ctx = {"safe": case["safe"], "spam": spam}
    want = oh
    if case["safe"] == 0 and spam:
        want = oh + [("X-Spam-Report", None)]
    want = apply_ops(want, case["ops"], spam)

    def cmp_headers(got, wanted, mech):
        g = nh(got)
        w = [(n, None if v is None else norm(v)) for n, v in wanted]
        ok = len(g) == len(w) and all(
            a[0] == b[0] and (b[1] is None or a[1] == b[1]) for a, b in zip(g, w))
        obs.count("headers", len(w))
        return obs.expect(ok, mech, dict(ctx, got=g, want=w))

    # headers-only mode: always the original's headers, edited
    hsplit = split(head)
    if obs.expect(hsplit is not None and hsplit[1] == "" and head.endswith("\n\n")
                  or (not head.strip() and not want),
                  "headers-only:shape", dict(ctx, got=head[-300:])):
        cmp_headers(hsplit[0] if hsplit else [], want, "headers-only:headers")
    fsplit = split(full)
    if not obs.expect(fsplit is not None, "unparseable", dict(ctx, got=full[:600])):
        return
    fh, fbody = fsplit
    if not spam or case["safe"] == 0:
        cmp_headers(fh, want, "headers")
        obs.count("bodies")
        if len(obody) > 3:
            obs.nontrivial(obody)
        obs.expect(same_body(fbody, obody), "body", dict(ctx, got=fbody[:3000], want=obody[:3000]))
        return
    # the wrapper
    obs.count("wrappers")
    got = nh(fh)
    d = {}
    for n, v in got:
        d.setdefault(n.lower(), []).append(v)
    ct = " ".join(v for n, v in fh if n.lower() == "content-type")
    mb = re.search(r'boundary="([^"]+)"', ct) or re.search(r"boundary=([^\s;]+)", ct)
    if not obs.expect(re.match(r"\s*multipart/mixed", ct) and mb is not None, "wrapper:type",
                      dict(ctx, ct=ct)):
        return
    firsts = {}
    for n, v in oh:
        firsts.setdefault(n.lower(), norm(v))
    for mine, theirs in (("subject", "subject"), ("from", "to"), ("to", "from"), ("date", "date")):
        if theirs in firsts:
            obs.expect(d.get(mine) == [firsts[theirs]], "wrapper:" + mine,
                       dict(ctx, got=d.get(mine), want=firsts[theirs]))
    ours = [(n, v) for n, v in fh if n.lower().startswith("x-spam-")]
    cmp_headers(ours, apply_ops([], case["ops"], True), "wrapper:headers")
    b = mb.group(1)
    chunks = ("\n" + fbody).split("\n--" + b)
    if not obs.expect(len(chunks) == 4 and chunks[3].startswith("--"), "wrapper:parts",
                      dict(ctx, n=len(chunks), got=full[-400:])):
        return
    p1, p2 = split(chunks[1][1:]), split(chunks[2][1:])
    if not obs.expect(p1 is not None and p2 is not None, "wrapper:part-headers", dict(ctx, got=full[:900])):
        return
    t1 = [v.strip() for n, v in p1[0] if n.lower() == "content-type"]
    obs.expect(t1 and t1[0].startswith("text/plain"), "wrapper:report-type", dict(ctx, got=t1))
    rep = email.message_from_string(chunks[1][1:]).get_payload(decode=True).decode("utf-8")
    for need, on in (("made spam", case["report"]), ("Be careful", case["unsafe"]),
                     ("score %0.1f of 5.0" % m.score, case["report"])):
        if on:
            obs.expect(need in rep, "wrapper:report", dict(ctx, need=need, got=rep[:500]))
    t2 = [v.strip().split(";")[0] for n, v in p2[0] if n.lower() == "content-type"]
    wt = "text/plain" if case["safe"] == 2 else ("message/rfc822", "message/rfc882")
    obs.expect(len(t2) == 1 and t2[0] in wt, "wrapper:original-type", dict(ctx, got=t2))
    obs.nontrivial(orig)
    obs.count("bodies")
    obs.expect(p2[1] == orig or p2[1] == orig.rstrip("\n") or p2[1] + "\n" == orig,
               "wrapper:original", dict(ctx, got=p2[1][:3000], want=orig[:3000]))


def same_body(got, want):
    return got == want or got + "\n" == want or got == want + "\n"


if __name__ == "__main__":
    sys.exit(core.main(
        "C11", gen, run, (4000, 60000),
        rule="headers (ordered, decoded) equal the original's edited by the configured operations; "
             "body / wrapped original equal the original character for character",
        require={"messages": 500, "spam": 100, "ham": 100, "wrappers": 100, "bodies": 300},
        assumptions=["line endings are compared after CRLF is read as LF",
                     "folding and RFC 2047 encoding of a header value may differ, its text may not",
                     "a final line break may be added or dropped"]))
