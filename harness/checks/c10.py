"""C10: fields of the relays read from Received headers.

Oracle: the generator's own field values for each documented MTA format; for arbitrary text the
invariants "terminates, valid address, every field text occurs in the header".
"""
import json
import os
import re
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import ipaddress

from vh import core, oah

FIELDS = ("rdns", "ip", "by", "helo", "ident", "id", "envfrom", "auth")

# name, template, expected fields (values are templates too); unnamed fields must be empty.
# Placeholders: {h} helo name, {r} rdns name, {i} IPv4, {a} any address, {A} any address in an
# [..] literal, {b} by host, {q} id, {e} envelope sender, {f} recipient, {n} ident, {d} date,
# {v} version
F = [
    ("postfix", "from {h} ({r} [{A}]) by {b} (Postfix) with ESMTP id {q} for <{f}>; {d}",
     dict(helo="{h}", rdns="{r}", ip="{a}", by="{b}", id="{q}")),
    ("postfix-unknown", "from {h} (unknown [{A}]) by {b} (Postfix) with ESMTP id {q} for <{f}>; {d}",
     dict(helo="{h}", ip="{a}", by="{b}", id="{q}")),
    ("postfix-old", "from {h} (unknown[{i}]) by {b} (Postfix) with SMTP id {q} for <{f}>; {d}",
     dict(helo="{h}", ip="{i}", by="{b}", id="{q}")),
    ("postfix-auth", "from {h} ({r} [{A}]) (Authenticated sender: {e}) by {b} (Postfix) with ESMTPA id {q} for <{f}>; {d}",
     dict(helo="{h}", rdns="{r}", ip="{a}", by="{b}", id="{q}", auth="ESMTPA")),
    ("postfix-tls-auth", "from {h} ({r} [{A}]) (using TLSv1 with cipher AES (256/256 bits)) by {b} (Postfix) with ESMTPSA id {q} for <{f}>; {d}",
     dict(helo="{h}", rdns="{r}", ip="{a}", by="{b}", id="{q}", auth="ESMTPSA")),
    ("sendmail", "from {h} ({r} [{i}]) by {b} (8.12.11/8.12.11) with ESMTP id {q} for <{f}>; {d}",
     dict(helo="{h}", rdns="{r}", ip="{i}", by="{b}", id="{q}")),
    ("sendmail-forged", "from {h} ({r} [{i}] (may be forged)) by {b} (8.11.6/8.11.6) with ESMTP id {q} for <{f}>; {d}",
     dict(helo="{h}", rdns="{r}", ip="{i}", by="{b}", id="{q}")),
    ("sendmail-ident", "from {h} ({n}@[{i}]) by {b} (8.11.6/8.11.6) with SMTP id {q}; {d}",
     dict(helo="{h}", ip="{i}", by="{b}", id="{q}", ident="{n}")),
    ("sendmail-auth", "from {h} ({r} [{i}]) (authenticated bits=0) by {b} (8.14.4/8.14.4) with ESMTP id {q} for <{f}>; {d}",
     dict(helo="{h}", rdns="{r}", ip="{i}", by="{b}", id="{q}", auth="Sendmail")),
    ("exim", "from {r} ([{a}]) by {b} with esmtp (Exim 4.85) (envelope-from <{e}>) id {q} for {f}; {d}",
     dict(helo="{r}", rdns="{r}", ip="{a}", by="{b}", id="{q}", envfrom="{e}")),
    ("exim-helo", "from {r} ([{a}] helo={h}) by {b} with esmtps (TLSv1:DHE-RSA-AES256-SHA:256) (Exim 4.85) (envelope-from <{e}>) id {q} for {f}; {d}",
     dict(helo="{h}", rdns="{r}", ip="{a}", by="{b}", id="{q}", envfrom="{e}")),
    ("exim-ip-helo", "from [{a}] (helo={h}) by {b} with esmtp (Exim 4.85) (envelope-from <{e}>) id {q} for {f}; {d}",
     dict(helo="{h}", ip="{a}", by="{b}", id="{q}", envfrom="{e}")),
    ("exim-ip-helo-auth", "from [{a}] (helo={h}) by {b} with esmtpsa (TLSv1.2:DHE-RSA-AES256-SHA:256) (Exim 4.85) (envelope-from <{e}>) id {q} for {f}; {d}",
     dict(helo="{h}", ip="{a}", by="{b}", id="{q}", envfrom="{e}", auth="esmtpsa")),
    ("exim-ip-ident", "from [{a}] (ident={n}) by {b} with esmtpa (Exim 4.85) (envelope-from <{e}>) id {q} for {f}; {d}",
     dict(ip="{a}", by="{b}", id="{q}", envfrom="{e}", ident="{n}", auth="esmtpa")),
    ("exim-plain", "from {r} [{i}] by {b} with esmtp (Exim 3.35 #1 (Debian)) id {q}; {d}",
     dict(helo="{r}", rdns="{r}", ip="{i}", by="{b}", id="{q}")),
    ("qmail-helo", "from {r} (HELO {h}) ({i}) by {b} with SMTP; {d}",
     dict(helo="{h}", rdns="{r}", ip="{i}", by="{b}")),
    ("qmail-helo-ident", "from {r} (HELO {h}) ({n}@{i}) by {b} with SMTP; {d}",
     dict(helo="{h}", rdns="{r}", ip="{i}", by="{b}", ident="{n}")),
    ("qmail-unknown", "from unknown (HELO {h}) ([{i}]) by {b} with (DHE-RSA-AES256-SHA encrypted) SMTP; {d}",
     dict(helo="{h}", ip="{i}", by="{b}")),
    ("qmail-sender", "from unknown (HELO {h}) ({n}@[{i}]) (envelope-sender <{e}>) by {b} (qmail-ldap-1.03) with SMTP for <{f}>; {d}",
     dict(helo="{h}", ip="{i}", by="{b}", ident="{n}", envfrom="{e}")),
    ("qmail-plain-auth", "from {r} (HELO {h}) ({n}@{i} with plain) by {b} with SMTP; {d}",
     dict(helo="{h}", rdns="{r}", ip="{i}", by="{b}", ident="{n}")),
    ("gmx", "from {r} (EHLO {h}) [{i}] by mail.gmx.net (mp010) with SMTP; {d}",
     dict(helo="{h}", rdns="{r}", ip="{i}", by="mail.gmx.net", auth="GMX (SMTP / mail.gmx.net)")),
    ("exchange", "from {r} ({i}) by {b} (172.17.210.2) with Microsoft SMTP Server (TLS) id 15.0.1104.5 via Mailbox Transport; {d}",
     dict(helo="{r}", rdns="{r}", ip="{i}", by="{b}", id="15.0.1104.5")),
    ("scalix", "from {h} ( {i}) by {b} (Scalix SMTP Relay 10.0.1.3) via ESMTP; {d}",
     dict(helo="{h}", ip="{i}", by="{b}")),
    ("smtpd", "from {h} ([{i}]) by {b} via smtpd (for [198.85.87.98]) with SMTP; {d}",
     dict(helo="{h}", ip="{i}", by="{b}")),
    ("hotmail-http", "from {i} by {b} with HTTP; {d}", dict(ip="{i}", by="{b}", auth="HTTP")),
    ("outblaze", "from [{i}] by {b} with http for {f}; {d}", dict(ip="{i}", by="{b}", auth="http")),
    ("yahoo-via", "from [{i}] by {b} via HTTP; {d}", dict(ip="{i}", by="{b}")),
    ("smap", "from {r}({i}) by {b} via smap (V1.3) id {q}; {d}",
     dict(rdns="{r}", ip="{i}", by="{b}", id="{q}")),
    ("smap-helo", "from {r}({i}, HELO {h}) by {b} via smap (V1.3) id {q}; {d}",
     dict(rdns="{r}", ip="{i}", by="{b}", id="{q}", helo="{h}")),
    ("argosoft", "from [{i}] by {b} (ArGoSoft Mail Server Freeware, Version 1.8 (1.8.2.5)); {d}",
     dict(ip="{i}", by="{b}")),
    ("interscan", "from {i} by {b} (InterScan E-Mail VirusWall NT); {d}", dict(ip="{i}", by="{b}")),
    ("communigate", "from [{i}] (account {n} HELO [{j}]) by {b} (CommuniGate Pro SMTP 3.5.7) with ESMTP-TLS id {q}; {d}",
     dict(ip="{i}", by="{b}", helo="{j}", id="{q}", auth="Communigate")),
    ("communigate-verified", "from {r} ([{i}] verified) by {b} (CommuniGate Pro SMTP 5.1.13) with ESMTP id {q} for {f}; {d}",
     dict(rdns="{r}", helo="{r}", ip="{i}", by="{b}", id="{q}")),
    ("ciphertrust", "from ([{i}]) by {b} with ESMTP ; {d}", dict(ip="{i}", by="{b}")),
    ("ironport", "from {r} ({i}) by {b} with ESMTP; {d}", dict(rdns="{r}", helo="{r}", ip="{i}", by="{b}")),
    ("criticalpath", "from [{i}] ({i}) by {b} (8.7.004.06) (authenticated as {e}) id {q}; {d}",
     dict(ip="{i}", by="{b}", id="{q}", auth="CriticalPath", helo="*")),
    ("google", "from {h} ({r}. [{A}]) by mx.google.com with ESMTPSA id {q} for <{f}> (version=TLS1_2 cipher=ECDHE-RSA-AES128-GCM-SHA256 bits=128/128); {d}",
     dict(helo="{h}", rdns="{r}.", ip="{a}", by="mx.google.com", id="{q}", auth="ESMTPSA")),
    ("attbi", "from {h} (<unknown.domain>[{i}]) by {b} (rwcrmhc53) with SMTP id <{q}>; {d}",
     dict(helo="{h}", ip="{i}", by="{b}", id="{q}")),
    ("exchange-nt", "from {h} ({i} [{i}]) by {b} with SMTP (Microsoft Exchange Internet Mail Service Version 5.5.2650.21) id {q}; {d}",
     dict(helo="{h}", rdns="{i}", ip="{i}", by="{b}", id="{q}")),
]
SKIP = [
    "from root by {b} with local-generated (Exim 4.80) id {q} for {f}",
    "from {h} [127.0.0.1] by localhost with IMAP (fetchmail-5.9.0) for {f} (single-drop); {d}",
    "from {h} by {b} with BSMTP (rsmtp-qm-ot 0.4) for {f}; {d}",
    "from {h} ({h}) by {b} (Content Technologies SMTPRS 4.2.1) with ESMTP id <{q}@{b}>; {d}",
    "from {h} ({n}@localhost) by {b} (SGI-8.9.3/8.8.7) with ESMTP id {q} for <{f}>; {d}",
    "from 127.0.0.1 (AVG SMTP 7.0.299 [265.6.8]); {d}",
    "from {e} by {b} by uid 7791 with qmail-scanner-1.14 (spamassassin: 2.41. Clear:SA:0(-4.1/5.0):. Processed in 0.209512 secs); {d}",
    "from {e} by {b} (mail_out_v34.13.) id {q} (4394); {d}",
    "from Unknown/Local ([?.?.?.?]) by {b}; {d}",
    "from (AUTH: e40a9cea) by {b} with esmtp (courier-0.40) for <{f}>; {d}",
    "from localhost (localhost [[UNIX: localhost]]) by {b} (8.12.11/8.12.11/Submit) id {q}; {d}",
    "from dc.iad3.amazon.com by mail-store-2001.amazon.com with ESMTP (peer crosscheck: dc.iad3.amazon.com)",
    "from GWGC6-MTA by {b} with Novell_GroupWise; {d}",
    "from no.name.available by [165.224.216.88] via smtpd (for {b} [66.35.250.206]) with ESMTP; {d}",
    "from mail pickup service by {b} with Microsoft SMTPSVC; {d}",
    "by {b} (Postfix, from userid 501) id {q}; {d}",
    "by {b} with SMTP id {q}; {d}",
    "(qmail 27981 invoked by uid 225); {d}",
    "(from {n}@localhost) by {b} (8.11.6/8.11.6) id {q}; {d}",
]
WORDS = ["mail", "mx1", "relay", "smtp-out", "host", "example", "corp", "a", "x9", "web-2", "Gw", "SRV01",
         "dsl-10-1-2-3", "ns", "xn--bcher-kva"]
TLD = ["com", "org", "net", "co.uk", "local", "io", "example"]
DATE = "Mon, 15 Feb 2016 10:31:35 +0100"


def name(rng, dots=True):
    w = [rng.choice(WORDS) + (str(rng.randrange(100)) if rng.random() < 0.3 else "")
         for _ in range(rng.randrange(1, 4))]
    if rng.random() < 0.04:
        w.insert(0, "authenticated")
    if dots and rng.random() < 0.04:
        # not for one-label names: a relay called just "id" or "by" makes
        # the header itself ambiguous
        w.insert(0, rng.choice(["by", "from", "with", "id", "helo", "ident"]))
    return ".".join(w + [rng.choice(TLD)]) if dots else w[0]


def v4(rng):
    k = rng.randrange(6)
    first = [10, 192, 127][k] if k < 3 and rng.random() < 0.6 else rng.randrange(1, 224)
    o = [first, rng.randrange(256), rng.randrange(256), rng.randrange(1, 255)]
    if first == 192 and rng.random() < 0.5:
        o[1] = 168
    return "%d.%d.%d.%d" % tuple(o)


def v6(rng):
    n = (0x2001 << 112) | rng.getrandbits(112)
    for _ in range(rng.randrange(0, 5)):
        s = rng.randrange(1, 8) * 16 - 16
        n &= ~(0xffff << s)
        if rng.random() < 0.3:
            n |= 0xffff << s
    text = str(ipaddress.IPv6Address(n))
    if rng.random() < 0.3:
        text = ":".join("%x" % (n >> (112 - 16 * i) & 0xffff) for i in range(8))
    return text.upper() if rng.random() < 0.15 else text


def values(rng):
    """One set of field values; addresses and claims are independent."""
    i = v4(rng)
    k = rng.random()
    a = v6(rng) if k < 0.3 else i
    A = ("IPv6:" if k < 0.2 else "") + a
    h = name(rng, rng.random() < 0.8)
    z = rng.random()
    if z < 0.12:
        h = "[%s]" % v4(rng)
    elif z < 0.2:
        h = v4(rng)
    q = "".join(rng.choice("ABCDEF0123456789abcxyz") for _ in range(rng.randrange(4, 15)))
    if rng.random() < 0.3:
        q = "1%s-0007%s-%s" % (q[:5], q[:2], q[:2])
    user = rng.choice(["user", "john.doe", "a", "b-c", "x_y", "sales+tag", "O1", "bounce-1-2"])
    r = name(rng)
    if rng.random() < 0.08:
        r = v4(rng).replace(".", "-") + "." + r
    elif rng.random() < 0.08:
        r = v4(rng) + "." + r
    return {"h": h, "r": r, "i": i, "j": v4(rng), "a": a, "A": A, "b": name(rng), "q": q,
            "e": "%s@%s" % (user, name(rng)), "f": "rcpt@%s" % name(rng),
            "n": rng.choice(["mail", "root", "nobody", "u1", "jd", "x-y"]), "d": DATE}


def fill(rng, template, val):
    return re.sub(r"\{(\w)\}", lambda m: val[m.group(1)], template)


def fold(rng, text):
    return re.sub(" ", lambda m: "\n " if rng.random() < 0.06 else "\n\t" if rng.random() < 0.03 else " ", text)


SOUP = ["from", "by", "with", "id", "for", "(", ")", "[", "]", "HELO", "EHLO", "helo=", "ident=", ";", "@",
        "envelope-from", "<", ">", "1.2.3.4", "10.0.0.1", "::1", "2001:db8::1", "unknown", "(Postfix)", "ESMTPA",
        "authenticated", "\t", " ", "  ", "fetchmail", "Exim", "(account", "IPv6:", "256.1.1.1", "09.08.07.06",
        "1.2.3", ":::", "::ffff:", "::ffff:1.2.3.4", "fe80::", "=", "\u00e9", "\u65e5", "x" * 40, "a.b.c.d", "0.0.0.0",
        "f" * 30, ":" * 20, "1:" * 12, "(" * 10, " by ", "from ", "[[", "HTTP", "mail.gmx.net", "(version=", "cipher="]


def gen(rng, i, tier):
    k = rng.random()
    if k < 0.6:
        headers, want = [], []
        for _ in range(rng.randrange(1, 6)):
            if rng.random() < 0.2:
                t = rng.choice(SKIP)
                headers.append(fold(rng, fill(rng, t, values(rng))))
                want.append(None)
                continue
            nm, t, exp = F[rng.randrange(len(F))] if i % 3 else F[i // 3 % len(F)]
            while True:
                val = values(rng)
                if usable(nm, val):
                    break
            headers.append(fold(rng, fill(rng, t, val)))
            want.append([nm, dict((f, fill(rng, exp.get(f, ""), val)) for f in FIELDS)])
        return {"kind": "format", "headers": headers, "want": want}
    headers = []
    for _ in range(rng.randrange(1, 4)):
        if rng.random() < 0.5:
            nm, t, exp = rng.choice(F)
            text = fill(rng, t, values(rng))
            for _ in range(rng.randrange(1, 6)):
                p = rng.randrange(len(text) + 1)
                q = min(len(text), p + rng.choice([0, 1, 3, 8]))
                z = rng.randrange(3)
                ins = rng.choice(SOUP) if z else text[q:q + 12]
                text = text[:p] + ins + text[q:]
        else:
            text = "from " * (rng.random() < 0.9) + rng.choice(["", " "]).join(
                rng.choice(SOUP) for _ in range(rng.randrange(1, 60)))
            if rng.random() < 0.1:
                text = text * rng.choice([2, 10, 30])
        headers.append(text.replace("\n", " "))
    case = {"kind": "soup", "headers": headers}
    if rng.random() < 0.2:
        case["orig"] = rng.choice([v4(rng), "[%s]" % v4(rng), "x", "", rng.choice(SOUP), v6(rng), "a by b"])
    return case


def usable(nm, val):
    """Is the header this format gives from these values unambiguous?"""
    h, r = val["h"], val["r"]
    literal = h.startswith("[") or re.match(r"[\d.]+$", h)
    if literal and nm in LITERAL_OK:
        pass
    elif literal:
        return False
    if nm in ("scalix", "smtpd") and "." not in h and False:
        return False
    return True


LITERAL_OK = {"postfix", "postfix-unknown", "postfix-old", "postfix-auth", "postfix-tls-auth", "sendmail",
              "sendmail-forged", "sendmail-auth", "sendmail-ident", "exim-helo", "exim-ip-helo",
              "exim-ip-helo-auth", "qmail-helo", "qmail-helo-ident", "qmail-unknown", "qmail-sender",
              "qmail-plain-auth", "google", "smap-helo"}


def norm(f, v):
    v = str(v)
    if f == "helo":
        v = v.strip("[]")
    if f == "ip" and v:
        try:
            return str(ipaddress.ip_address(v))
        except ValueError:
            return v
    return v


def message(headers, orig=None):
    out = ["Received: " + h for h in headers]
    if orig is not None:
        out.append("X-Origin: " + orig)
    return "\n".join(out + ["From: a@b.example", "Subject: x", "", "text", ""])


def relays_of(msg):
    return msg.received_headers


_RS = []


def run(case, obs):
    if not _RS:
        _RS.append(oah.load("report x\n")[0])
        _RS.append(oah.load("originating_ip_headers X-Origin\n")[0])
    rs = _RS[1] if "orig" in case else _RS[0]
    t0 = time.time()
    msg = oah.scan(rs, message(case["headers"], case.get("orig")))
    took = time.time() - t0
    obs.expect(took < 20, "slow", "reading the Received headers took %.1f s", took)
    got = relays_of(msg)
    obs.count("headers", len(case["headers"]))
    obs.count("relays", len(got))
    if case["kind"] == "format":
        want = [w for w in case["want"] if w]
        obs.count("skipped_headers", len(case["want"]) - len(want))
        if not obs.expect(len(got) == len(want), "relay-count", "%d relays from headers that describe %d:\n%s",
                          len(got), len(want), "\n".join(case["headers"])):
            return
        heads = [h for h, w in zip(case["headers"], case["want"]) if w]
        for g, (nm, w), h in zip(got, want, heads):
            obs.seen("formats", nm)
            for f in FIELDS:
                if w[f] == "*":
                    continue
                obs.count("fields")
                obs.expect(norm(f, g.get(f, "")) == norm(f, w[f]), "field:%s:%s" % (nm, f),
                           "%s of %r is %r, the MTA wrote %r", f, h, g.get(f), w[f])
            obs.nontrivial(nm, h)
        obs.sample({"headers": case["headers"], "relays": [dict((f, str(g.get(f))) for f in FIELDS) for g in got]}, 2)
        ips = [str(x) for x in msg.get_header_ips()]
        want_ips = [norm("ip", w["ip"]) for nm, w in want]
        obs.expect(set(ips) <= set(want_ips), "header-ips", "header ips %s, relays %s", ips, want_ips)
        return
    texts = [re.sub(r"\s+", " ", h) for h in case["headers"]]
    pos = 0
    all_texts = texts + [case.get("orig", "")]
    for g in got:
        try:
            ipaddress.ip_address(str(g["ip"]))
        except ValueError:
            obs.violation("invalid-ip", "relay with address %r from %r" % (g["ip"], case["headers"]))
            continue
        # the header this relay was read from: some header, in order, that has all its fields
        for n in range(pos, len(all_texts)):
            if all(occurs(f, str(g.get(f) or ""), all_texts[n]) for f in FIELDS):
                pos = n + 1
                break
        else:
            obs.violation("invented", "no header in order contains all the fields of the relay %r: %r" % (
                dict((f, g.get(f)) for f in FIELDS), all_texts))
        obs.count("soup_relays")
    for x in msg.get_header_ips():
        ipaddress.ip_address(str(x))
    obs.nontrivial("soup", tuple(case["headers"]))


LABELS = re.compile(r"GMail - transport=(.*) cipher=(.*)$|GMX \((\S+) / (\S+)\)$", re.S)


def occurs(f, value, text):
    text = text.lower()
    value = value.lower()
    if f == "ip":
        n = norm("ip", value)
        return value in text or n in text
    if f == "auth":
        if value in ("postfix", "squirrelmail", "criticalpath", "sendmail", "communigate", ""):
            return not value or "authenticated" in text or "communigate" in text or "postfix" in text
        m = re.match(r"gmail - transport=(.*) cipher=(.*)$|gmx \((\S+) / (\S+)\)$", value, re.S)
        if m:
            return all(g in text for g in m.groups() if g)
    return value in text


if __name__ == "__main__":
    core.main("C10", gen, run, (6000, 150000),
              "headers of 39 documented formats filled with random names, addresses (v4, v6, private, public, "
              "literals claimed in HELO) and ids, folded at random, mixed with formats that must be ignored; "
              "and mutated and random header text; distinct by format and header text",
              require={"fields": 10000, "formats": len(F), "skipped_headers": 300, "soup_relays": 200})
