"""C16: histories of many clients against a running daemon, compared with the sequential oracle.

scripts/oad.py runs as a process (single or preforked).  Every well behaved request carries a message
of its own; its response must be the one an offline scan of that message gives.  In between other
connections send garbage, break off, reset or dribble.
"""
import os
import random
import re
import sys
import threading
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vh import core, daemon, everything, mailgen, oah, world
import oa

CMDS = ["CHECK", "SYMBOLS", "REPORT", "REPORT_IFSPAM", "PROCESS", "HEADERS", "PROCESS", "REPORT"]
NET = ("razor", "spf", "dkim", "dns", "relay_country")
OFFLINE = ["loadplugin vhprobe.Worker", "dns_available no", "skip_rbl_checks 1"]


def conf(rng):
    if rng.random() < .3:
        plugins = [p for p in everything.PLUGINS if not p.startswith(NET) and not p.startswith("spam_cop")]
        skip = [n for n, line in everything.rules()
                if any(line.split("eval:")[-1].startswith(w) for w in
                       ("check_razor", "check_for_spf", "check_for_def_spf", "check_dkim", "check_for_dkim",
                        "check_for_def_dkim", "check_rbl", "check_dns"))]
        drop = ("_spf", "_dkim", "adsp")
        text = everything.config(OFFLINE, skip, plugins=plugins)
        return "\n".join(l for l in text.splitlines() if not any(d in l.split()[0] for d in drop)) + "\n"
    out = list(OFFLINE) + ["required_score %s" % rng.choice([5, 1]), "report_safe %d" % rng.choice([0, 1, 2])]
    for n in range(12):
        out.append("body B%d /word%d\\b/" % (n, n))
        out.append("score B%d %s" % (n, 0.1 * (n + 1)))
        out.append("header H%d Subject =~ /subj%d\\b/" % (n, n))
        out.append("score H%d %s" % (n, 0.7 + n))
    out += ["meta M B1 && H1", "report _PREVIEW_ _TESTS_", "add_header all T _TESTS_ _SCORE_"]
    return "\n".join(out) + "\n"


def plain(rng, tag):
    words = " ".join("word%d" % rng.randrange(12) for _ in range(rng.randrange(6)))
    fill = rng.choice(["", "", "text \u20ac\n" * rng.choice([10, 900, 4000])])
    return ("From: %s@x.example\nTo: b@x.example\nSubject: subj%d %s\nContent-Type: text/plain; charset=utf-8\n\n"
            "%s %s\n%s" % (tag, rng.randrange(12), tag, tag, words, fill)).encode("utf8")


def gen(rng, i, tier):
    return {"conf": conf(rng), "prefork": rng.choice([None, None, 2, 3, 4]), "clients": rng.choice([4, 8, 16]),
            "each": rng.choice([15, 30]) if tier == "quick" else rng.choice([30, 60, 120]),
            "hostile": rng.choice([0, .2, .5, .8]), "seed": rng.randrange(1 << 30),
            "rich": rng.random() < .4}


GARBAGE = [b"", b"\r\n", b"\0", b"\xff\xfe\xfd\r\n\r\n", b"GET / HTTP/1.1\r\nHost: x\r\n\r\n", b"CHECK\r\n\r\n",
           b"CHECK SPAMC/1.2 extra\r\n\r\n", b"NOSUCH SPAMC/1.2\r\n\r\nFrom: a@x.example\r\n\r\nx", b" \r\n",
           b"CHECK SPAMC/1.2\r\nno colon here\r\n\r\nx", b"CHECK SPAMC/1.2\r\nContent-length: ten\r\n\r\nx",
           b"PROCESS SPAMC/1.2\r\nContent-length: -5\r\n\r\nx", b"CHECK SPAMC/1.2\r\n\xff\xfe: x\r\n\r\nx",
           b"PROCESS SPAMC/1.2\r\nContent-length: 99999999999999\r\n\r\nshort",
           b"CHECK SPAMC/1.2\r\nCompress: zlib\r\nContent-length: 9\r\n\r\nnot zlib!",
           b"\xe2\x82\xac SPAMC/1.2\r\n\r\n", b"PING", b"SYMBOLS SPAMC/1.2\r\nContent-length: 1e3\r\n\r\n" + b"x" * 1000,
           b"TELL SPAMC/1.2\r\nMessage-class: spam\r\nSet: local\r\nContent-length: 50\r\n\r\nFrom: a",
           b"A" * 20000, b"CHECK " * 500 + b"\r\n\r\n", b"HEADERS SPAMC/1.2\r\n" + b"X: y\r\n" * 2000 + b": \r\n\r\n",
           b"__class__ SPAMC/1.2\r\n\r\n", b"PING SPAMC/1.2 \xff\r\n", b"REPORT SPAMC/1.2\r\nUser: ../../x\r\n: \r\n\r\nx"]
ERROR = re.compile(rb"^SPAMD/\S+ 76 Bad header line: [^\r\n]*\r\n$", re.S)
# What must not be answered with a verdict
BAD = [g for g in GARBAGE if g and not g.startswith((b"PING", b"\r\n")) and b"\r\n: \r\n" not in g]


def client(case, k, srv, log, stop):
    """One client: a list of (kind, request, response, times) appended to log."""
    rng = random.Random("%s:%s" % (case["seed"], k))
    for n in range(case["each"]):
        if stop.is_set():
            return
        tag = "tok%dx%d" % (k, n)
        raw = mailgen.message(rng) if case["rich"] and rng.random() < .5 else plain(rng, tag)
        cmd = rng.choice(CMDS)
        data = daemon.req(cmd, raw, length=rng.random() < .8)
        if rng.random() < case["hostile"]:
            how = rng.choice(["close", "reset", "read", "eof", "eof"])
            r = rng.random()
            if r < .5:
                g = rng.choice(GARBAGE)
                t = time.time()
                got = srv.abuse(g, how)
                log.append(("garbage", how, g, got, t, time.time()))
            else:
                cut = rng.choice([0, 3, 8, 20, 45, len(data) // 2, len(data) - 1, rng.randrange(len(data))])
                t = time.time()
                got = srv.abuse(data[:cut], how)
                log.append(("cut", how, data[:cut], got, t, time.time()))
            continue
        if rng.random() < .1:
            t = time.time()
            got, problem = srv.request(daemon.req("PING"))
            log.append(("PING", None, None, (got, problem), t, time.time()))
            continue
        cuts = sorted(rng.randrange(1, len(data)) for _ in range(rng.choice([0, 0, 1, 3])))
        t = time.time()
        got, problem = srv.request(data, cuts, delay=rng.choice([0, 0, 0, .003]))
        log.append((cmd, tag, raw, (got, problem), t, time.time()))


PID = re.compile(r"<\d+>")


def run(case, obs):
    with oah.TempDir() as d:
        cdir = os.path.join(d, "conf")
        oah.write(os.path.join(cdir, "10.cf"), case["conf"] + "add_header all Worker _WORKERPID_\n")
        srv = daemon.Process(cdir, d, prefork=case["prefork"])
        try:
            before = srv.workers()
            rs = oah.load(case["conf"] + "add_header all Worker _WORKERPID_\n")[0]
            logs = [[] for _ in range(case["clients"])]
            stop = threading.Event()
            ts = [threading.Thread(target=client, args=(case, k, srv, logs[k], stop)) for k in range(case["clients"])]
            for t in ts:
                t.daemon = True
                t.start()
            end = time.time() + 150
            for t in ts:
                t.join(max(0, end - time.time()))
            stuck = sum(t.is_alive() for t in ts)
            stop.set()
            if stuck:
                obs.violation("stuck", "%d of %d clients got no answer; the daemon says %s" % (
                    stuck, len(ts), srv.output()[-1500:]))
                return
            alive = srv.proc.poll() is None
            obs.expect(alive, "died", "the daemon ended with %s: %s", srv.proc.poll(), srv.output()[-1500:])
            if not alive:
                return
            obs.expect(srv.workers() == before, "worker", "the workers were %s and are %s", before, srv.workers())
            obs.count("retried", len(srv.retried))
            obs.expect(len(srv.retried) <= case["clients"] + case["clients"] * case["each"] // 25, "resets",
                       "%d connections were reset unanswered: %s", len(srv.retried), srv.retried[:3])
            short = [k for k in range(len(ts)) if len(logs[k]) != case["each"]]
            if short:
                obs.violation("refused", "client(s) %s could not connect; the daemon says %s" % (
                    short, srv.output()[-1500:]))
            for _ in range(3 * (case["prefork"] or 1)):
                got, problem = srv.request(daemon.req("PING"))
                obs.expect(got == b"SPAMD/%s 0 PONG\r\n" % oa.__version__.encode(), "after", "PING afterwards: %r %s",
                           got, problem)
            judge(case, logs, rs, obs)
        finally:
            srv.stop()


def judge(case, logs, rs, obs):
    spans = []
    for k, log in enumerate(logs):
        for kind, tag, data, got, t0, t1 in log:
            spans.append((t0, 1))
            spans.append((t1, -1))
            if kind in ("garbage", "cut"):
                obs.count(kind)
                obs.seen("abuses", (kind, tag, data[:40] if kind == "garbage" else len(data) // 8))
                if tag == "eof" and kind == "garbage" and data in BAD:
                    obs.count("errors_answered" if got else "closed")
                    obs.expect(got == b"" or ERROR.match(got), "accepted", "%r was answered %r", data[:200], got[:300])
                elif tag == "eof" and kind == "cut" and b"Content-length: " in data and \
                        b"\r\n\r\n" in data:
                    head, body = data.split(b"\r\n\r\n", 1)
                    want = int(re.search(rb"Content-length: (\d+)", head).group(1))
                    if len(body) < want:
                        obs.count("truncated")
                        obs.expect(got == b"" or ERROR.match(got), "truncated",
                                   "%d of %d bytes were answered %r", len(body), want, got[:300])
                continue
            raw, problem = got
            obs.count("requests")
            if kind == "PING":
                obs.expect(raw == b"SPAMD/%s 0 PONG\r\n" % oa.__version__.encode(), "ping", "PING answered %r (%s)", raw,
                           problem)
                continue
            where = "client %d of %d, %s %s" % (k, case["clients"], kind, tag)
            resp = daemon.Response(raw)
            if problem or not resp.ok or resp.code != 0 or resp.length is None:
                obs.violation("lost", "%s: answered %r (%s)" % (where, raw[:300], problem or resp.problem))
                continue
            msg = oah.scan(rs, world.text_of(data))
            spam = msg.score >= rs.conf["required_score"]
            want = {"CHECK": lambda: "", "SYMBOLS": lambda: ",".join(sorted(oah.hits(msg))),
                    "REPORT": lambda: rs.get_report(msg),
                    "REPORT_IFSPAM": lambda: rs.get_report(msg) if spam else "",
                    "PROCESS": lambda: rs.get_adjusted_message(msg),
                    "HEADERS": lambda: rs.get_adjusted_message(msg, header_only=True)}[kind]()
            obs.expect(resp.length == len(resp.body), "length", "%s: Content-length %s, %d bytes", where, resp.length,
                       len(resp.body))
            obs.expect((resp.spam, resp.score) == (spam, "%.1f" % msg.score), "verdict", "%s: %s %s instead of %s %.1f",
                       where, resp.spam, resp.score, spam, msg.score)
            text = resp.body.decode("utf8", "replace")
            want = want.encode("utf8", "replace").decode("utf8")
            for pid in PID.findall(text):
                obs.seen("workers", pid)
            if kind == "SYMBOLS":
                text = ",".join(sorted(text.split(",")))
            else:
                text, want = (world.clean(PID.sub("<PID>", x)) for x in (text, want))
            obs.expect(text == want, "body", "%s: %r instead of %r", where, text[:600], want[:600])
            obs.count("judged")
    now = peak = 0
    for _, step in sorted(spans):
        now += step
        peak = max(peak, now)
        if step > 0 and now > 1:
            obs.count("overlapping")
    obs.seen("peak", peak)
    obs.count("prefork" if case["prefork"] else "single")
    obs.nontrivial(case["seed"])
    obs.sample({"prefork": case["prefork"], "clients": case["clients"], "each": case["each"], "peak": peak}, 3)


def init(shard):
    world.install()
    oah.oa.config.LAZY_MODE = True


if __name__ == "__main__":
    core.main("C16", gen, run, (32, 200),
              "a running daemon, single or with 2-4 workers, with 4-16 clients at once sending requests of "
              "their own, up to 80% of the connections hostile (garbage, cut anywhere, reset, closed unread); "
              "every response is compared with an offline scan of that client's message; a case is one history",
              require={"judged": 1500, "garbage": 250, "cut": 250, "errors_answered": 40, "truncated": 15,
                       "overlapping": 1500, "workers": 12, "abuses": 60, "prefork": 4, "single": 4},
              init=init, case_timeout=200, budget=(240, 780),
              assumptions=["a client that keeps an unfinished request open holds up the process serving it; "
                           "every client of these histories goes on or breaks off"])
