"""C14: no message aborts a scan; a failing rule, hook or MIME part disturbs nothing else."""
import json
import random
import vhprobe
from vh import core, everything, mailgen, oah, world

NAMES = [n for n, _ in everything.rules()]
NET = ("check_razor2",)          # starts a process per message; C13 runs it


class Odd(Exception):
    pass


def raiser(kind):
    def f(*args):
        if kind == "odd":
            raise Odd("odd")
        if kind == "unicode":
            b"\xff".decode("ascii")
        if kind == "recursion":
            raise RecursionError("deep")
        if kind == "memory":
            raise MemoryError()
        if kind == "stop":
            raise StopIteration()
        if kind == "assertion":
            raise AssertionError()
        if kind == "key":
            raise KeyError("missing")
        if kind == "none":
            None.lower()
        if kind == "nomsg":
            raise Exception()
        if kind == "badstr":
            class Bad(Exception):
                def __str__(self):
                    return "\udcff \u20ac %s %d"
            raise Bad()
        if kind == "os":
            raise OSError(5, "io")
        if kind == "zero":
            1 / 0
        if kind == "args":
            raise TypeError("%s %d", 1)
        raise ValueError(kind)
    return f


KINDS = ["odd", "unicode", "recursion", "memory", "stop", "assertion", "key", "none", "nomsg", "badstr", "os",
         "zero", "args", "value"]


def nest(rng, depth, inner):
    """depth levels of multipart or message/rfc822."""
    how = rng.randrange(3)
    head, tail = [], []
    for d in range(depth):
        if how == 1 or (how == 2 and d % 2):
            head.append("Content-Type: message/rfc822\n\nSubject: level %d\n" % d)
        else:
            head.append("Content-Type: multipart/mixed; boundary=\"b%d\"\n\n--b%d\n" % (d, d))
            tail.append("\n--b%d--\n" % d)
    return ("From: a@b.example\nSubject: deep\nMIME-Version: 1.0\n" + "".join(head) + "Content-Type: text/plain\n\n" +
            inner + "".join(reversed(tail))).encode()


def special(rng, deepest=3000):
    """Structural extremes."""
    k = rng.randrange(16)
    if k == 0:
        return nest(rng, min(deepest, rng.choice([20, 90, 150, 250, 400, 600, 800, 1500, 3000])), "free INNER\n")
    if k == 1:
        return b"".join(b"X-H%d: v\n" % n for n in range(rng.choice([100, 5000]))) + b"\nbody\n"
    if k == 2:
        return b"Subject: " + b"a" * rng.choice([1000, 15000]) + b"\n\n" + b"free " * rng.choice([10, 10000])
    if k == 3:
        return bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 10, 200, 3000])))
    if k == 4:
        return rng.choice([b"", b"\n", b"\n\n\n", b":", b": x\n\n", b"\0", b"Subject", b"Subject:", b"From ", b"From x\n\n",
                           b"\r\n\r\n", b" folded\n\n", b"\xef\xbb\xbfSubject: x\n\ny", b"Subject: x\n\n\0\0\0",
                           b"--\n--\n", b"Content-Type: multipart/mixed\n\n--\n--\n", b"\xff\xfeS\0u\0b\0"])
    if k == 5:
        cs = rng.choice(["\0", "utf-8\0", "a b", "x" * 5000, "=?utf-8?q?x?=", "idna", "punycode", "rot13", "hex", "base64",
                         "unicode_escape", "utf-16", "utf-7", "undefined", "zlib", "utf_8_sig", "mbcs", "raw_unicode_escape",
                         "../x", "utf-8'en'%FF", "\u0130", "cp65001", "unicode_internal", "charmap", "string-escape"])
        form = rng.choice(["; charset=\"%s\"", "; charset=%s", "; charset*=%s", "; charset*=utf-8''%s", "; charset*0=%s"])
        sub = rng.choice(["plain", "html"])
        return ("Subject: cs\nContent-Type: text/%s%s\nContent-Transfer-Encoding: %s\n\nZnJlZSBieXRlcw== =FF=FE \u20ac\n" % (
            sub, form % cs, rng.choice(["base64", "quoted-printable", "8bit", "x", "\0", "uuencode"]))).encode("utf8")
    if k == 6:
        hdr = rng.choice(["Subject", "From", "To", "Date", "Received", "Message-Id", "Content-Type", "Return-Path", "Reply-To",
                          "DKIM-Signature", "Received-SPF", "Authentication-Results", "Content-Disposition", "X-Originating-IP"])
        val = rng.choice(["=?utf-8?b?////?=", "=?utf-8?b?a?=", "=?x?q?=ZZ?=", "=?utf-8*en?q?a?=", "=?\0?q?a?=", "=?utf-8?b?" + "A" * 999,
                          "(" * 500, "\"" * 301, "<" * 300, "@" * 300, ",;:" * 200, "a@[1.2.3", "\\" * 99, "\0" * 9, "%s%n%d{}",
                          "{0}", "=?idna?q?=FF?=", "\u20ac" * 50, "[999.999.999.999]", "[::1", "1.2.3.4 " * 99, "; " * 500,
                          "from x ([fe80::1%eth0]) by y with ESMTP id 1; Mon, 99 Jan 99999999999 25:61:61 +99999",
                          "v=1; a=; b=; d=; h=; s=; bh=", "v=1; v=1", "multipart/mixed; boundary=\"" + "b" * 3000 + "\"",
                          "multipart/", "/", "text/html; charset", "attachment; filename*=bogus", "attachment; filename*0*=a''b",
                          "message/rfc822", "message/partial", "message/external-body", "message/delivery-status"])
        return ("%s: %s\nSubject: s\n\nfree\n" % (hdr, val)).encode("utf8")
    if k == 7:
        tag = rng.choice(["<a href=\"http://x.example\">", "<", "<!--", "<![CDATA[", "<!DOCTYPE", "<?", "<a href=", "</", "<a/",
                          "&#", "&#99999999999;", "&bogus", "<script>", "<b><i>", "<!x[", "<a b='", "<\0a>", "<a href='http://[::1'>"])
        return (b"Subject: h\nContent-Type: text/html\n\n" + (tag * rng.choice([1, 3, 500])).encode() + b" free")
    if k == 8:
        return b"Subject: u\n\n" + rng.choice([b"http://" + b"a" * 5000, b"http://[::1]:x/", b"http://%zz@/", b"http://a:99999999/",
                                              b"www." + b"a." * 500 + b"com", b"http://" * 300, b"http://\xe2\x82\xac/", b"http://a@b@c/",
                                              b"https://[v1.x]/", b"ftp://" + b"@" * 200, b"http://1.2.3.4.5/", b"http://0x7f.1/",
                                              b"a@" * 2000, b"a" * 3000 + b"@gmail.com", b"http://?", b"http:///x"])
    if k == 9:
        atts = [mailgen.png(1, 1), mailgen.gif(2, 2), mailgen.pdf(2)]
        data = bytearray(rng.choice(atts))
        for _ in range(rng.choice([1, 4, 30])):
            data[rng.randrange(len(data))] = rng.randrange(256)
        h, d = mailgen.entity(rng, rng.choice(["image/png", "image/gif", "application/pdf", "image/jpeg"]) + "; name=\"a.pdf\"",
                              bytes(data), "attachment; filename=\"a.pdf\"")
        return b"Subject: att\n" + "\n".join(h).encode() + b"\n\n" + d
    if k == 10:
        return (b"Subject: bad\nContent-Type: multipart/mixed; boundary=B\n\n" +
                b"--B\n" * rng.choice([1, 5, 3000]) + rng.choice([b"", b"--B--"]))
    if k == 11:
        lines = rng.choice([b"a\n", b"v\n", b"\n", b" \n", b"a \n", b"\t\n", b"=\n", b"M" * 60 + b"\n"])
        return b"Subject: l\n\n" + lines * rng.choice([10, 3000])
    if k == 12:
        return b"Received: " + b"from a by b; " * rng.choice([3, 2000]) + b"\nSubject: r\n\nfree\n"
    if k == 13:
        return b"".join(b"Received: " + mailgen.received(rng).encode("latin-1", "replace") + b"\n" for _ in range(rng.choice([50, 400]))) + b"\nfree\n"
    if k == 14:
        ct = rng.choice(["message/rfc822", "multipart/mixed; boundary=q", "text/html", "text/plain", "image/png", "application/pdf"])
        cte = rng.choice(["base64", "quoted-printable", "8bit", "uuencode"])
        return ("Subject: ct\nContent-Type: %s\nContent-Transfer-Encoding: %s\n\n%s" % (
            ct, cte, rng.choice(["", "x", "====", "=", "=\n=\n", "begin 666 a\n#86)C\n`\nend\n", "--q\n\n--q--", "Subject: in\n\nx"]))).encode()
    return b"Subject: " + rng.choice([b"a" * 40 + b"!", b"1-" * 30, b"((" * 40, b"a.b" * 40, b" " * 3000 + b"x", b"%RND " * 90]) + b"\n\n" + rng.choice(
        [b"a" * 30000, b"aaaa@" * 3000, b"x=" * 9000, b"- " * 9000, b"<a " * 9000, b"\xc3\xa9" * 9000, b"ab cd " * 9000])


def gen(rng, i, tier):
    kind = rng.choice(["hostile"] * 5 + ["rule"] * 2 + ["hook"] * 2 + ["part"] * 2)
    case = {"kind": kind, "seed": rng.randrange(1 << 30)}
    if kind == "hostile":
        case["msgs"] = []
        for _ in range(6):
            k = rng.random()
            raw = special(rng) if k < .4 else mailgen.message(rng)
            if k > .5:
                raw = mailgen.mutate(rng, raw)
            case["msgs"].append(raw.decode("latin-1"))
        case["opts"] = rng.sample(["report_safe 0", "report_safe 2", "ignore_received_spf_header 1", "use_newest_received_spf_header 1",
                                   "freemail_domains *.example", "ok_languages all", "ok_locales all", "required_score 1",
                                   "trusted_networks 192.0.2.0/24", "originating_ip_headers X-Foo Subject",
                                   "envelope_sender_header From", "always_trust_envelope_sender 1"], rng.choice([0, 2, 4]))
        return case
    if kind == "part":
        case["msgs"] = [special(rng, 600).decode("latin-1") for _ in range(5)]
        case["pos"] = rng.randrange(3)
        case["how"] = rng.choice(["multipart", "multipart", "header"])
        return case
    raw = mailgen.message(rng)
    case["msgs"] = [raw.decode("latin-1"), mailgen.message(rng).decode("latin-1")]
    case["exc"] = rng.choice(KINDS)
    keep = rng.choice([0, .1, .4])
    case["skip"] = [x for x in NAMES if rng.random() > keep]
    if kind == "rule":
        n = rng.choice([1, 2, 5])
        case["where"] = sorted(rng.randrange(12) for _ in range(n))
        case["types"] = [rng.choice(["body", "header", "full", "rawbody"]) for _ in range(n)]
        case["prio"] = [rng.choice([None, 0, -5, 10]) for _ in range(n)]
        case["base_prio"] = [rng.choice([None, None, -10, 5, 20]) for _ in range(12)]
        case["sc"] = rng.random() < .15
    else:
        case["hooks"] = rng.sample(["check_start", "extract_metadata", "parsed_metadata", "check_end", "auto_learn", "eval"],
                                   rng.choice([1, 1, 2, 6]))
        case["part"] = rng.choice(["all", "text", "other", "first"])
        case["at"] = rng.choice(["first", "last", "middle"])
    return case


class Failures(object):
    """Rules the engine reported as failed (only counted)."""


def verdict(rs, raw, obs, case, what):
    """Scan once, everything a user asks for afterwards included."""
    del vhprobe.LOG[:]
    msg = oah.oa.message.Message(rs.ctxt, raw)
    rs.match(msg)
    hooks = [e[0] for e in vhprobe.LOG if e[0] in ("check_end", "auto_learn") and e[1] == id(msg)]
    obs.expect(sorted(hooks) == ["auto_learn", "check_end"], "end-hooks", "%s: hooks after the scan: %r" % (what, hooks))
    if not case.get("sc"):
        missing = [n for n in rs.checked if n not in msg.rules_checked]
        obs.expect(not missing, "rules-unjudged", "%s: no result for %r" % (what, missing[:5]))
    total = sum(rs.get_rule(n).score for n in oah.hits(msg))
    if not case.get("sc"):
        obs.expect(abs(total - msg.score) < 1e-6, "score-sum", "%s: score %r, hits sum to %r" % (what, msg.score, total))
    obs.count("scans")
    obs.count("hits", len(oah.hits(msg)))
    out = world.outcome(rs, msg)
    obs.count("reports")
    return out


CACHE = {}


def everything_rs(opts):
    key = tuple(opts)
    if key not in CACHE:
        if len(CACHE) > 12:
            CACHE.clear()
        skip = [n for n, line in everything.rules() if any(x in line for x in NET)]
        CACHE[key] = oah.load("loadplugin vhprobe.Probe\n" + everything.config(opts, set(skip)))[0]
    return CACHE[key]


def run_hostile(case, obs):
    rs = everything_rs(case["opts"])
    for n, m in enumerate(case["msgs"]):
        raw = world.text_of(m.encode("latin-1"))
        try:
            verdict(rs, raw, obs, case, "message %d" % n)
        except core.CaseTimeout:
            raise
        except Exception as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            last = [f for f in tb if f.filename.startswith(core.REPO + "/")]
            obs.violation("aborted:%s:%s" % (last[-1].name if last else "?", type(e).__name__),
                          "scanning %r raises: %s" % (m[:300], traceback.format_exc()[-900:]))
        obs.count("hostile_messages")
        obs.nontrivial("h", m)


def run_rule(case, obs):
    base = ["body B%02d /%s/i" % (k, w) for k, w in enumerate(
        ["free", "click", "hidden", "money", "offer", "a", "e", "john", "fox", "dog", "zzz", "example"])]

    def text(what):
        lines = []
        for k, line in enumerate(base):
            for n, w in enumerate(case["where"]):
                if w == k:
                    lines.append("%s F%d eval:%s" % (case["types"][n], n, what(n)))
                    if case["prio"][n] is not None:
                        lines.append("priority F%d %d" % (n, case["prio"][n]))
                    lines.append("score F%d 7.5" % n)
            lines.append(line)
            lines.append("score B%02d %s" % (k, (k + 1) * .1))
            if case["base_prio"][k] is not None:
                lines.append("priority B%02d %d" % (k, case["base_prio"][k]))
        lines += ["meta M0 F0 || B00", "meta M1 !F0 && B05", "meta M2 (F0 + B01 + B05) > 1"]
        return "loadplugin vhprobe.Probe\nloadplugin vhprobe.Fault\n" + "\n".join(lines) + "\n" + everything.config(
            ["shortcircuit B00 on"] if case["sc"] else [], set(case["skip"]) | set(n for n, l in everything.rules() if "razor" in l))
    vhprobe.FAULTS.clear()
    vhprobe.FAULTS["eval"] = raiser(case["exc"])
    bad = oah.load(text(lambda n: "fault('f%d')" % n))[0]
    good = oah.load(text(lambda n: "probe('f%d')" % n))[0]
    vhprobe.TRUTH.clear()
    for n, m in enumerate(case["msgs"]):
        raw = world.text_of(m.encode("latin-1"))
        a, b = verdict(bad, raw, obs, case, "failing rules"), verdict(good, raw, obs, case, "rules that do not hit")
        del vhprobe.LOG[:]
        oah.scan(bad, raw)
        ran = [e for e in vhprobe.LOG if e[0] == "fault"]
        obs.count("rules_failed", len(ran))
        for k in sorted(a):
            obs.expect(a[k] == b[k], "failing-rule:" + k, "with failing rules (%s) %s is %.500r, with rules that do not hit %.500r" % (
                case["exc"], k, a[k], b[k]))
        obs.nontrivial("r", m, tuple(case["where"]), case["exc"])


def run_hook(case, obs):
    lines = everything.config((), set(case["skip"]) | set(n for n, l in everything.rules() if "razor" in l)).split("\n")
    plugin = "loadplugin vhprobe.Fault"
    loads = [k for k, l in enumerate(lines) if l.startswith("loadplugin")]
    at = {"first": 0, "middle": loads[len(loads) // 2], "last": loads[-1] + 1}[case["at"]]
    lines.insert(at, plugin)
    cf = "loadplugin vhprobe.Probe\n" + "\n".join(lines) + "\nbody FA eval:fault('a')\nscore FA 3\n"
    rs = oah.load(cf)[0]
    exc = raiser(case["exc"])
    seen = []

    def on_part(payload):
        seen.append(1)
        if case["part"] == "all" or (case["part"] == "text") == (payload is not None) or (
                case["part"] == "first" and len(seen) == 1):
            exc()
    for n, m in enumerate(case["msgs"]):
        raw = world.text_of(m.encode("latin-1"))
        vhprobe.FAULTS.clear()
        b = verdict(rs, raw, obs, case, "quiet plugin")
        quiet = [e[0] for e in vhprobe.LOG if e[0] != "fault"]
        for h in case["hooks"]:
            vhprobe.FAULTS[h] = on_part if h == "extract_metadata" else exc
        a = verdict(rs, raw, obs, case, "failing plugin")
        loud = [e[0] for e in vhprobe.LOG if e[0] != "fault"]
        vhprobe.FAULTS.clear()
        obs.count("hooks_failed", len(case["hooks"]))
        obs.expect(quiet == loud, "hooks-run", "hooks run with a failing plugin %r, otherwise %r" % (loud, quiet))
        for k in sorted(a):
            obs.expect(a[k] == b[k], "failing-hook:" + k, "with a plugin failing in %r (%s) %s is %.500r, otherwise %.500r" % (
                case["hooks"], case["exc"], k, a[k], b[k]))
        obs.nontrivial("k", m, tuple(case["hooks"]), case["exc"])


def run_part(case, obs):
    """Good parts keep hitting whatever stands next to them."""
    rs = everything_rs(())
    for n, m in enumerate(case["msgs"]):
        raw = m.encode("latin-1")
        # the bad message's own entity as one part among good ones
        head, sep, bodyb = raw.partition(b"\n\n")
        keep = [l for l in head.replace(b"\r", b"").split(b"\n") if l.lower().startswith((b"content-", b" ", b"\t"))][:20]
        while keep and keep[0][:1] in b" \t":
            keep.pop(0)
        bad = b"\n".join(keep) + b"\n\n" + bodyb
        good = [b"Content-Type: text/plain\n\nMARKERA free\n", b"Content-Type: text/html\n\n<p>MARKERB http://bad.example/b</p>\n",
                b"Content-Type: text/plain; charset=utf-8\nContent-Transfer-Encoding: base64\n\nTUFSS0VSQw==\n"]
        parts = list(good)
        parts.insert(case["pos"], bad)
        bnd = b"=_outermost_boundary_0"
        if bnd in bad:
            continue
        full = (b"From: a@b.example\nSubject: x\nMIME-Version: 1.0\nContent-Type: multipart/mixed; boundary=\"" + bnd + b"\"\n\n" +
                b"".join(b"--" + bnd + b"\n" + p + b"\n" for p in parts) + b"--" + bnd + b"--\n")
        text = world.text_of(full)
        out = None
        try:
            msg = oah.oa.message.Message(rs.ctxt, text)
            rs.match(msg)
            out = msg.text
            rs.get_report(msg)
            rs.get_adjusted_message(msg)
        except core.CaseTimeout:
            raise
        except Exception as e:
            import traceback
            last = [f for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith(core.REPO + "/")]
            obs.violation("aborted:%s:%s" % (last[-1].name if last else "?", type(e).__name__),
                          "part %r: %s" % (bad[:300], traceback.format_exc()[-900:]))
            continue
        obs.count("bad_parts")
        for mark in ("MARKERA", "MARKERB", "MARKERC"):
            obs.expect(mark in out, "part-lost", "%s is missing from the text next to the part %r" % (mark, bad[:300]))
        obs.nontrivial("p", m, case["pos"])


def run(case, obs):
    {"hostile": run_hostile, "rule": run_rule, "hook": run_hook, "part": run_part}[case["kind"]](case, obs)
    obs.seen("kinds", case["kind"] + case.get("exc", ""))
    obs.sample({"kind": case["kind"], "first": case["msgs"][0][:300], "exc": case.get("exc")}, 3)


def init(shard):
    world.install()


if __name__ == "__main__":
    core.main("C14", gen, run, (600, 9000),
              "mutated rich messages, structural extremes and random bytes scanned with every bundled plugin and "
              "eval function; rules and plugin hooks that raise compared with ones that quietly do nothing; bad "
              "MIME parts beside good ones; distinct by message bytes and fault",
              require={"hostile_messages": 600, "rules_failed": 100, "hooks_failed": 100, "bad_parts": 200, "hits": 3000},
              init=init, case_timeout=60)
