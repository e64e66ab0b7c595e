"""A deterministic outside world: DNS answers and helper programs that depend only on the question."""
import email.utils
import hashlib
import os
import pickle
import re
import struct
import time
import traceback

import dns.exception
import dns.resolver
import dns.rrset
import spf

from vh import core, oah


class Ans(list):
    """As much of a dnspython answer as the plugins use, around real records."""

    def __init__(self, name, rd, texts):
        self.rrset = dns.rrset.from_text(str(name).rstrip(".") + ".", 60, "IN", rd, *texts)
        list.__init__(self, list(self.rrset))
        self.response = type("response", (), {"answer": [self.rrset]})


DKIM_KEY = ("k=rsa; p=MIGfMA0GCSqGSIb3DQEBAQUAA4GNADCBiQKBgQDVbnSJNiOoXyS5D5weevdXQ+YOJp4L0OPypG7x8YeI4fAuVqt3NL+uIW"
            "nASiz4c5DCi3VvX5YeOFUaXSGDxbDHCxT20iDXRl6ERy7UEkmU73N2flngA3XcwLLsbO2Z5yOix73a7kzuseoNYGCQ9jMVDRHfZ+Z"
            "wVq3A5ip79VFK/QIDAQAB")
TYPES = {"1": "A", "16": "TXT", "28": "AAAA", "15": "MX", "12": "PTR"}


def answer(name, rd):
    """Answers are a function of the question only."""
    rd = TYPES.get(rd, rd.split(".")[-1])
    if "._domainkey." in name and rd == "TXT":
        if name.startswith("sel."):
            return Ans(name, rd, ['"%s" "%s"' % (DKIM_KEY[:200], DKIM_KEY[200:])])
        raise dns.resolver.NXDOMAIN()
    h = hashlib.md5((name.lower() + "/" + rd).encode("utf8", "replace")).digest()[0]
    if h < 90:
        raise dns.resolver.NXDOMAIN()
    if h < 110:
        raise dns.resolver.NoAnswer()
    if h < 120:
        raise dns.resolver.Timeout()
    try:
        if rd == "A":
            return Ans(name, rd, ["127.0.0.%d" % (h % 4 + 1)])
        if rd == "TXT":
            return Ans(name, rd, ['"%s"' % ["listed %d" % h, "v=spf1 ip4:192.0.2.0/24 -all", "v=spf1 a mx ~all",
                                           "v=spf1 +all", "v=spf1 ?all", "v=spf1 bogus:x", "v=spf1 -all"][h % 7]])
        if rd == "MX":
            return Ans(name, rd, ["10 mx%d.example." % (h % 3)])
    except dns.exception.DNSException:
        pass
    raise dns.resolver.NoAnswer()


def spf_lookup(name, qtype, *args, **kwargs):
    out = []
    try:
        for r in oah.NET(None, name, qtype):
            if qtype in ("A", "AAAA"):
                out.append(((name, qtype), r.address))
            elif qtype == "MX":
                out.append(((name, qtype), (r.preference, str(r.exchange))))
            elif qtype in ("TXT", "SPF"):
                out.append(((name, qtype), [x.encode() if isinstance(x, str) else x for x in r.strings]))
    except (dns.resolver.NoAnswer, dns.resolver.NXDOMAIN):
        pass
    except dns.exception.Timeout as e:
        raise spf.TempError("DNS " + str(e))
    return out


def install():
    """DNS stand-in and a razor-check stand-in first on the PATH."""
    oah.NET.default = answer
    spf.DNSLookup = spf_lookup
    d = os.path.join(core.SCRATCH, "bin")
    if not os.path.isdir(d):
        os.makedirs(d)
    p = os.path.join(d, "razor-check")
    if not os.path.exists(p):
        tmp = p + ".%d" % os.getpid()
        with open(tmp, "w") as f:
            f.write("#!/bin/sh\nif grep -q free; then exit 0; fi\nexit 1\n")
        os.chmod(tmp, 0o755)
        os.rename(tmp, p)
    if not os.environ["PATH"].startswith(d + ":"):
        os.environ["PATH"] = d + ":" + os.environ["PATH"]


def child(fn, timeout=120):
    """fn() in a forked process: ("ok", value) or ("error", traceback)."""
    import select
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            import signal
            signal.setitimer(signal.ITIMER_REAL, 0)
            os.close(r)
            try:
                data = pickle.dumps(("ok", fn()))
            except Exception:
                data = pickle.dumps(("error", traceback.format_exc()[-2500:]))
            with os.fdopen(w, "wb") as f:
                f.write(struct.pack("!Q", len(data)) + data)
        finally:
            os._exit(0)
    os.close(w)
    data = b""
    end = time.time() + timeout
    try:
        while True:
            ready, _, _ = select.select([r], [], [], max(0, end - time.time()))
            if not ready:
                return ("timeout", "no answer from the child in %d s" % timeout)
            c = os.read(r, 1 << 16)
            if not c:
                break
            data += c
    finally:
        os.close(r)
        try:
            os.kill(pid, 9)
        except OSError:
            pass
        os.waitpid(pid, 0)
    if len(data) < 8 or len(data) - 8 != struct.unpack("!Q", data[:8])[0]:
        return ("died", "the child died")
    return pickle.loads(data[8:])


_DATE = re.compile(r"^Date: (.*)$", re.M)


def _now(m):
    t = email.utils.parsedate_tz(m.group(1))
    if t and abs(email.utils.mktime_tz(t) - time.time()) < 7200:
        return "Date: NOW"
    return m.group(0)


def clean(text):
    """Drop the random boundary, the time stamped Received line and a Date of just now."""
    text = re.sub(r"={5,}\d+==", "BOUNDARY", text)
    text = _DATE.sub(_now, text)
    return re.sub(r"Received: from localhost by [^;]*;[^\n]*\n[^\n]*", "RCVD", text)


def outcome(rs, msg):
    """Everything a user sees of a scan."""
    return {"hits": sorted(oah.hits(msg)), "score": round(msg.score, 6),
            "checked": sorted(msg.rules_checked),
            "descriptions": sorted((k, str(v)) for k, v in msg.rules_descriptions.items()),
            "tags": sorted((k, str(v)) for k, v in msg.plugin_tags.items()),
            "report": rs.get_report(msg), "message": clean(rs.get_adjusted_message(msg)),
            "sender": str(msg.sender_address), "uris": sorted(map(str, msg.uri_list))}


def text_of(raw):
    """A message as the match tool and the daemon hand it over."""
    return raw.decode("utf8", "ignore")
