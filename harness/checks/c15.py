"""C15: the raw bytes answered by the daemon against an offline scan of the same message.

The request bytes go over a socket pair into the real request handler, cut at random places; the
oracle is a rule set loaded afresh from the same files scanning the same bytes, and a response
composed here from its result.
"""
import os
import sys
import zlib

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vh import core, daemon, everything, mailgen, oah, world
import oa

BODY_COMMANDS = ["CHECK", "SYMBOLS", "REPORT", "REPORT_IFSPAM", "PROCESS", "HEADERS"]
COMMANDS = BODY_COMMANDS + ["PING", "SKIP", "TELL"]
WIDE = ["caf\xe9 ", "\u20ac", "\u65e5\u672c\u8a9e", "\U0001f600", "\xdf", "na\xefve "]


def big(rng):
    """A message whose multi byte characters lie on the limits of the chunks."""
    head = "From: a@x.example\nSubject: %s\nContent-Type: text/plain; charset=utf-8\n" \
        "Content-Transfer-Encoding: 8bit\n\n" % rng.choice(["hello", "offer \u20ac", "\xe9t\xe9"])
    size = rng.choice([1, 1, 2, 3, 8]) * 8192 + rng.randrange(-6, 6)
    raw = head.encode("utf8")
    ch = rng.choice(WIDE).encode("utf8")
    fill = rng.choice([b"x", b"free ", b"word\n"])
    raw += fill * ((size - len(raw) - rng.randrange(0, 12)) // len(fill))
    raw += ch * rng.choice([8, 40, 3000])
    return raw


def small_conf(rng):
    out = ["required_score %s" % rng.choice([5, 2, 1, 0.5, 4.96, -1, 100]), "report_safe %d" % rng.choice([0, 1, 2])]
    pats = ["free", "caf\xe9", "x", "offer", "the", "viagra", "[a-z]", "hello"]
    for n in range(rng.randrange(1, 6)):
        name = "%sR%d" % (rng.choice(["", "", "__"]), n)
        kind = rng.choice(["body", "full", "rawbody", "header"])
        p = rng.choice(pats)
        out.append("%s %s %s/%s/%s" % (kind, name, "Subject =~ " if kind == "header" else "", p, rng.choice(["", "i"])))
        out.append("score %s %s" % (name, rng.choice([1, 0.5, 2.25, -1, 4.95, 5, 0.049, 100, -0.04, 1e6])))
        out.append("describe %s %s" % (name, rng.choice(["plain", "d\xe9scription \xa3", "100%% %d" % n])))
    if rng.random() < .4:
        out += ["clear_report_template", "report r\xe9port _SCORE_/_REQD_ _TESTS_", "report _PREVIEW_"]
    if rng.random() < .3:
        out += ["clear_report_template"]
    if rng.random() < .5:
        out.append("add_header all Not\xe9 _TESTS_ \xe9")
    if rng.random() < .5:
        out.append("add_header spam Rep _REPORT_")
    return "\n".join(out) + "\n"


def gen(rng, i, tier):
    conf = everything.config(rng.sample(["report_safe 0", "report_safe 2", "required_score 0.3"],
                                        rng.randrange(3))) if rng.random() < .25 else small_conf(rng)
    msgs = []
    for _ in range(rng.choice([1, 2])):
        r = rng.random()
        raw = big(rng) if r < .4 else mailgen.message(rng)
        if r > .85:
            raw = mailgen.mutate(rng, raw)
        if rng.random() < .1:
            raw = raw.replace(b"\n", b"\r\n")
        if rng.random() < .05:
            raw = rng.choice([b"", b"\n", b"x", b"\xff\xfe", "\u20ac".encode("utf8")])
        msgs.append(raw.decode("latin-1"))
    reqs = []
    for m, raw in enumerate(msgs):
        cmds = BODY_COMMANDS + rng.sample(["PING", "SKIP", "TELL", "CHECK", "PROCESS"], 2)
        rng.shuffle(cmds)
        for cmd in cmds:
            zipped = rng.random() < .3
            length = rng.choice(["exact", "exact", "exact", "none", "less", "extra"])
            seg = rng.choice(["whole", "few", "many", "limits", "lines"])
            reqs.append({"cmd": cmd, "msg": m, "zip": zipped, "length": length, "seg": seg,
                         "case": rng.choice(["Content-length", "Content-Length", "content-length", "CONTENT-LENGTH"]),
                         "verb": rng.choice([cmd, cmd, cmd.lower(), cmd.title()]),
                         "proto": rng.choice(["SPAMC/1.2", "SPAMC/1.5", "SPAMC/1.0"]), "sep": rng.choice([" ", " ", "  "]),
                         "eol": rng.choice(["\r\n", "\r\n", "\n"]), "open": rng.random() < .5,
                         "user": rng.choice([None, None, "root", "nosuch", "../../etc"]),
                         "extra": rng.choice([[], [], ["X-Unknown: yes"], ["Filler: a:b: c", "Empty:"]]),
                         "k": rng.random(), "seed": rng.randrange(1 << 30)})
    rng.shuffle(reqs)
    return {"conf": conf, "msgs": msgs, "reqs": reqs, "lazy": rng.random() < .8}


def request(r, raw):
    """(bytes sent, cuts, keep the sending side open, message bytes the daemon has to look at)"""
    import random
    rng = random.Random(r["seed"])
    data, seen = raw, raw
    length = r["length"]
    if r["zip"]:
        data = zlib.compress(raw)
        if length == "less":
            length = "exact"
    n = len(data)
    if length == "less":
        n = int(len(data) * r["k"])
        seen = data[:n]
    sent = data
    if length == "extra":
        sent = data + rng.choice([b"trailing junk", b"\r\nCHECK SPAMC/1.2\r\n\r\n", b"\xff" * 20])
    e = r["eol"]
    lines = ["%s%s%s" % (r["verb"], r["sep"], r["proto"])]
    heads = list(r["extra"])
    if r["user"]:
        heads.append("User: %s" % r["user"])
    if r["zip"]:
        heads.append("Compress: zlib")
    if length != "none":
        heads.append("%s: %d" % (r["case"], n))
    if r["cmd"] == "TELL":
        heads += ["Message-class: spam", "Set: local"]
    rng.shuffle(heads)
    if r["cmd"] in ("PING", "SKIP"):
        heads, sent = [], b""
    head = (e.join(lines + heads) + e + e).encode("utf8")
    out = head + sent
    cuts = []
    if r["seg"] == "few":
        cuts = [rng.randrange(len(out) + 1) for _ in range(3)]
    elif r["seg"] == "many":
        cuts = [rng.randrange(len(out) + 1) for _ in range(60)]
    elif r["seg"] == "limits":
        cuts = [len(head) + k * 8192 + rng.randrange(-2, 3) for k in range(len(sent) // 8192 + 1)]
    elif r["seg"] == "lines":
        cuts = [1, len(lines[0]), len(lines[0]) + 1, len(head) - 1, len(head)]
    cuts = sorted(set(c for c in cuts if 0 < c < len(out)))
    keep = r["open"] and length != "none"
    return out, cuts, keep, seen


def expected(cmd, rs, msg):
    spam = msg.score >= rs.conf["required_score"]
    if cmd == "CHECK":
        return spam, ""
    if cmd == "SYMBOLS":
        return spam, ",".join(sorted(oah.hits(msg)))
    if cmd == "REPORT":
        return spam, rs.get_report(msg)
    if cmd == "REPORT_IFSPAM":
        return spam, rs.get_report(msg) if spam else ""
    if cmd == "PROCESS":
        return spam, rs.get_adjusted_message(msg)
    return spam, rs.get_adjusted_message(msg, header_only=True)


def run(case, obs):
    oah.oa.config.LAZY_MODE = case["lazy"]
    with oah.TempDir() as d:
        oah.write(os.path.join(d, "10.cf"), case["conf"])
        srv = daemon.InProc(d)
        try:
            rs = oah.load(case["conf"])[0]
            for r in case["reqs"]:
                one(case, r, srv, rs, obs)
        finally:
            srv.close()


def one(case, r, srv, rs, obs):
    raw = case["msgs"][r["msg"]].encode("latin-1")
    data, cuts, keep, seen = request(r, raw)
    del srv.errors[:]
    got = srv.request(data, cuts, shutdown=not keep)
    cmd = r["cmd"]
    where = "%s (length %s, zip %s, cut %s, %d bytes)" % (cmd, r["length"], r["zip"], r["seg"], len(raw))
    obs.count("responses")
    obs.count("cmd:" + cmd)
    obs.nontrivial(cmd, r["zip"], r["length"], r["seg"], len(cuts), hash(raw), hash(case["conf"]))
    if srv.errors:
        obs.violation("handler", "%s failed with %r after answering %r" % (where, srv.errors[0], got[:200]))
        return
    ver = oa.__version__
    if cmd == "PING":
        obs.expect(got == ("SPAMD/%s 0 PONG\r\n" % ver).encode(), "ping", "PING answered %r", got)
        return
    if cmd == "SKIP":
        obs.expect(got == b"", "skip", "SKIP answered %r", got)
        return
    resp = daemon.Response(got)
    if not resp.ok or resp.code != 0 or resp.message != "EX_OK":
        obs.violation("status", "%s answered %r (%s)" % (where, got[:300], resp.problem))
        return
    obs.expect(got.startswith(("SPAMD/%s 0 EX_OK\r\n" % ver).encode()), "version", "%s: first line %r", where, got[:60])
    if cmd == "TELL":
        obs.expect(resp.rest == b"DidSet: local\r\n", "tell", "TELL answered %r", got)
        return
    if resp.length is None:
        obs.violation("headers", "%s answered %r" % (where, got[:300]))
        return
    msg = oah.scan(rs, world.text_of(seen))
    spam, body = expected(cmd, rs, msg)
    if len(seen) > 8000:
        obs.count("big_messages")
    if seen and max(seen) > 127:
        obs.count("eight_bit")
    if r["zip"]:
        obs.count("zipped")
    obs.count("cuts", len(cuts))
    obs.count("spam" if spam else "ham")
    obs.expect(resp.length == len(resp.body), "length", "%s: Content-length %s with a body of %s bytes: %r",
               where, resp.length, len(resp.body), resp.body[:200])
    obs.expect(resp.spam == spam, "verdict", "%s: %r instead of %r (score %r, required %r)", where, resp.spam, spam,
               msg.score, rs.conf["required_score"])
    obs.expect(resp.score == "%.1f" % msg.score, "score", "%s: score %s instead of %.1f", where, resp.score, msg.score)
    obs.expect(float(resp.required) == float(rs.conf["required_score"]), "threshold", "%s: threshold %s", where,
               resp.required)
    text = resp.body.decode("utf8", "replace")
    want = body.encode("utf8", "replace").decode("utf8")
    if len(want) != len(body.encode("utf8", "replace")):
        obs.count("wide_bodies")
    if cmd == "SYMBOLS":
        text = ",".join(sorted(text.split(",")))
    else:
        text, want = world.clean(text), world.clean(want)
    if text != want:
        k = 0
        while k < min(len(text), len(want)) and text[k] == want[k]:
            k += 1
        obs.violation("body:" + cmd, "%s: the body differs at %d: %r instead of %r" % (
            where, k, text[max(0, k - 40):k + 80], want[max(0, k - 40):k + 80]))
    elif body:
        obs.count("bodies")


def init(shard):
    world.install()


if __name__ == "__main__":
    core.main("C15", gen, run, (320, 8000),
              "requests of all nine commands with rich, 8-bit, chunk sized and mutated messages, with and "
              "without Content-length, compressed, cut at up to 60 places, answered by the real handler; "
              "each response is compared byte for byte with the one composed from an offline scan by a "
              "freshly loaded rule set; distinct by command, framing, message and configuration",
              require=dict({"responses": 1500, "bodies": 500, "wide_bodies": 150, "big_messages": 300, "zipped": 200,
                            "spam": 100, "ham": 100, "eight_bit": 200, "cuts": 2000},
                           **dict(("cmd:" + c, 40) for c in COMMANDS)),
              init=init, assumptions=["bytes of a request that are not UTF-8 are dropped, as the match tool does"])
