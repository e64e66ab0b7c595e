"""C22: the Bayes store after every learn and forget, and the classifier's answer, against a model."""
import hashlib
import math
import os
import random
import re
import sqlite3
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vh import core, oah, world
import oa.message

STOP = set("able all already and are because both can come each mail even email few first for from give have has http "
           "information into it's just know like long look made mail mailing mailto make many more most much need not now number "
           "off only one out own people place right same see such that this through the time using web where why with without "
           "work world year years you you're your".split())
RANGES = [[("A", 0, 1)], [("A", 0, .01), ("B", .01, .05), ("C", .05, .2), ("D", .2, .4), ("E", .4, .6), ("F", .6, .8),
                          ("G", .8, .95), ("H", .95, .99), ("I", .99, 1)], [("A", 0, .5), ("B", .5, None)],
          [("A", 0, .001), ("B", .001, .999), ("C", .999, None)]]
ALPHA = "abcdefghijklmnopqrstuvwxyz"
NASTY = [lambda r: "".join(r.choice("ab.") for _ in range(r.choice([3, 10, 60]))),
         lambda r: ".".join(word(r) for _ in range(r.choice([2, 5, 40]))),
         lambda r: "a." + word(r), lambda r: "x@" + word(r) + ".example.com", lambda r: "%s@%s.com" % (word(r), word(r)),
         lambda r: "http://www.%s.com/%s" % (word(r), word(r)), lambda r: "x@y@z.b", lambda r: word(r) * 6,
         lambda r: u"\xe9\xe8\xea" * r.choice([1, 3, 9]), lambda r: u"\u4e2d\u6587" * r.choice([1, 9]), lambda r: "..." * 5,
         lambda r: "%s...%s--%s" % (word(r), word(r), word(r)), lambda r: "'\"" + word(r) + "-,.", lambda r: "$31,000,000",
         lambda r: word(r).upper(), lambda r: word(r).title() + "!", lambda r: "*" * 20, lambda r: u"\xff" * 30,
         lambda r: "a.b", lambda r: "@a", lambda r: "a@", lambda r: ".a", lambda r: "a*" * 12, lambda r: "H*r:" + word(r),
         lambda r: "\x85\x1c", lambda r: "[" * 30, lambda r: "\\1\x01"]


def word(rng):
    return "".join(rng.choice(ALPHA) for _ in range(rng.choice([4, 5, 7, 9, 12, 15])))


def gen(rng, i, tier):
    vocab = [word(rng) for _ in range(rng.choice([6, 15, 30]))]
    big = rng.random() < .08
    pool = []
    for k in range(rng.choice([2, 3, 5])):
        m = {"words": [rng.choice(vocab) for _ in range(rng.choice([1, 4, 12]))] + [word(rng) for _ in range(rng.choice([0, 2, 6]))],
             "nasty": [rng.choice(NASTY)(rng) for _ in range(rng.choice([0, 0, 1, 4]))],
             "subject": " ".join(rng.choice(vocab) for _ in range(rng.choice([0, 1, 3]))),
             "id": rng.choice([None, None, "m%d@example.com" % k, "m%d@example.com" % k, "same@example.com", "<>"]),
             "date": rng.choice([None, "Thu, 01 Jan 2015 10:00:00 +0000", "Mon, 01 Jan 2035 10:00:00 +0000", "garbage", ""]),
             "extra": [(rng.choice(["X-Mailer", "Received", "References", "Content-Type", "X-Own", "Organization", "X-Face", "To",
                                    "Return-Path", "MIME-Version", "User-Agent", "DKIM-Signature", "Cc", "In-Reply-To"]),
                        " ".join(rng.choice([word(rng), "<%s@%s.com>" % (word(rng), word(rng)), "[192.0.2.7]", "by mx id 4abcdef12345"])
                                 for _ in range(rng.choice([1, 3])))) for _ in range(rng.choice([0, 1, 4]))],
             "shape": rng.choice(["plain", "plain", "plain", "multi", "html", "bare", "empty"])}
        if big and k == 0:
            m["words"] += [word(rng) for _ in range(rng.choice([80, 175]))]
        pool.append(m)
    ops = []
    for _ in range(rng.choice([4, 8, 14, 20])):
        kind = rng.choice(["spam", "spam", "ham", "ham", "again", "forget", "scan", "scan", "restart", "relearn"])
        ops.append([kind, rng.randrange(len(pool)), rng.choice(["fresh", "kept", "between"]), rng.randrange(len(pool))])
    if rng.random() < .5:
        # enough of each to classify
        ops = [["spam", 0, "fresh", 0], ["ham", 1 % len(pool), "fresh", 0]] + ops
    if big:
        # known well from one side, once from the other: of different strength
        ops = [["spam", 0, "fresh", 0], ["ham", 1, "fresh", 0], ["scan", 0, "fresh", 0]] + ops
        pool[1]["words"] += pool[0]["words"][:rng.choice([5, 140, 165, 175])]
        pool[0]["shape"], pool[1]["shape"] = "plain", "multi"
        pool[0]["id"], pool[1]["id"] = None, "m1@example.com"
    return {"pool": pool, "ops": ops, "min": rng.choice([[1, 1], [1, 1], [0, 0], [2, 1], [1, 3], None, [0, 1]]),
            "ranges": rng.randrange(len(RANGES)), "hapaxes": rng.random() < .8, "use": rng.random() < .95,
            "ignore": rng.choice([None, None, None, "X-Own", "x-mailer organization"]), "seed": rng.randrange(1 << 30)}


def build(m):
    head = ["From: a@example.com", "Subject: %s" % m["subject"]]
    if m["id"]:
        head.append("Message-ID: %s" % (m["id"] if m["id"] == "<>" else "<%s>" % m["id"]))
    if m["date"] is not None:
        head.append("Received: from x by y; %s" % m["date"])
    text = "\n".join(" ".join((m["words"] + m["nasty"])[k:k + 8]) for k in range(0, len(m["words"] + m["nasty"]), 8))
    extra = [(n, v) for n, v in m["extra"] if n not in ("Content-Type", "MIME-Version") or m["shape"] == "plain" and n != "Content-Type"]
    head += ["%s: %s" % x for x in extra]
    if m["shape"] == "bare":
        return "\n" + text + "\n\n" + text[::-1] + "\n"
    if m["shape"] == "empty":
        return "\n".join(head) + "\n"
    if m["shape"] == "html":
        head.append("Content-Type: text/html; charset=utf-8")
        return "\n".join(head) + "\n\n<html><body>%s</body></html>\n" % text
    if m["shape"] == "multi":
        head.append('Content-Type: multipart/alternative; boundary="b0und"')
        return "\n".join(head) + ("\n\n--b0und\nContent-Type: text/plain; charset=utf-8\n\n%s\n\n--b0und\nContent-Type: "
                                  "text/html\n\n<p>%s</p>\n--b0und--\n" % (text, text))
    return "\n".join(head) + "\n\n" + text + "\n"


class World(object):
    """One database with the configuration loaded on it."""

    def __init__(self, d, name, case):
        self.path = os.path.join(d, name)
        self.case = case
        con = sqlite3.connect(self.path)
        con.executescript("""
            create table bayes_seen (id integer, msgid varchar(200), flag varchar(1), primary key (id, msgid));
            create table bayes_token (id integer, token blob, spam_count integer, ham_count integer, atime integer,
                                      primary key (id, token));
            create table bayes_vars (id integer primary key, username varchar(200), spam_count integer, ham_count integer,
                token_count integer, last_expire integer, last_atime_delta integer, last_expire_reduce integer,
                oldest_token_age integer, newest_token_age integer);
            create table bayes_expire (id integer primary key, runtime integer);
            create table bayes_global_vars (variable varchar(30) primary key, value varchar(200));""")
        con.close()
        self.start()

    def start(self):
        c = self.case
        out = ["loadplugin oa.plugins.bayes.BayesPlugin", "bayes_sql_dsn sqlite:///%s" % self.path]
        if c["min"]:
            out += ["bayes_min_spam_num %d" % c["min"][0], "bayes_min_ham_num %d" % c["min"][1]]
        if not c["hapaxes"]:
            out.append("bayes_use_hapaxes 0")
        if not c["use"]:
            out.append("use_bayes 0")
        if c["ignore"]:
            for name in c["ignore"].split():
                out.append("bayes_ignore_headers %s" % c["ignore"].replace(" ", ","))
                break
        for n, lo, hi in RANGES[c["ranges"]]:
            args = "'%s'" % lo + (", '%s'" % hi if hi is not None else "")
            out += ["body BAYES_%s eval:check_bayes(%s)" % (n, args), "score BAYES_%s 0.5" % n]
        # the message, with the tags of the plugin
        out += ["add_header all Bayes _BAYES_", "add_header all Hammy _HAMMYTOKENS_", "add_header all Spammy _SPAMMYTOKENS_"]
        self.rs, self.parser = oah.load("\n".join(out) + "\n")

    def parse(self, raw):
        return oa.message.Message(self.rs.ctxt, raw)

    @property
    def plugin(self):
        return self.rs.ctxt.plugins["BayesPlugin"]

    def state(self):
        con = sqlite3.connect(self.path)
        try:
            sums = con.execute("select spam_count, ham_count from bayes_vars").fetchall()
            tokens = dict((bytes(t), (s, h)) for t, s, h in
                          con.execute("select token, spam_count, ham_count from bayes_token"))
            rows = con.execute("select count(*) from bayes_token").fetchone()[0]
            seen = dict(con.execute("select msgid, flag from bayes_seen"))
            nseen = con.execute("select count(*) from bayes_seen").fetchone()[0]
        finally:
            con.close()
        return sums, tokens, seen, rows == len(tokens) and nseen == len(seen)


def chi2q(m, half):
    """Pr(chi-square with 2*half degrees of freedom >= 2m)"""
    if m <= 0:
        return 1.0
    logs = [-m + k * math.log(m) - math.lgamma(k + 1) for k in range(half)]
    top = max(logs)
    return min(1.0, math.exp(top) * sum(math.exp(x - top) for x in logs)) if top > -700 else 0.0


def classify(tokens, sums, known, hapaxes):
    """-> (score or None, spammy token count, hammy token count, ambiguous)"""
    ns, nn = sums
    if not ns or not nn:
        return None, 0, 0, False
    probs = []
    for t in tokens:
        s, h = known.get(t, (0, 0))
        if s + h < (1 if hapaxes else 2):
            continue
        p = (s / float(ns)) / (s / float(ns) + h / float(nn))
        probs.append((.538 * .03 + (s + h) * p) / (.03 + s + h))
    probs.sort(key=lambda p: -abs(p - .5))
    near = any(abs(abs(p - .5) - .346) < 1e-9 for p in probs)
    tie = len(probs) > 150 and abs(abs(probs[149] - .5) - abs(probs[150] - .5)) < 1e-12 and \
        len(set(round(p, 9) for p in probs if abs(abs(p - .5) - abs(probs[149] - .5)) < 1e-12)) > 1
    use = [p for p in probs[:150] if abs(p - .5) >= .346]
    if not use:
        return None, 0, 0, near
    n = float(ns + nn)
    s = -math.log(ns / n) - sum(math.log(1 - p) for p in use)
    h = -math.log(nn / n) - sum(math.log(p) for p in use)
    score = (1 - chi2q(s, len(use)) - (1 - chi2q(h, len(use))) + 1) / 2
    return score, sum(p >= .5 for p in use), sum(p < .5 for p in use), near or tie


def number(text):
    try:
        return float(text)
    except (TypeError, ValueError):
        return None


class Model(object):
    def __init__(self):
        self.sums = [0, 0]
        self.tokens = {}
        self.seen = {}

    def add(self, tokens, flag, step):
        k = 0 if flag == "s" else 1
        self.sums[k] = max(0, self.sums[k] + step)
        for t in tokens:
            c = list(self.tokens.get(t, (0, 0)))
            c[k] = max(0, c[k] + step)
            self.tokens[t] = tuple(c)

    def learn(self, ident, tokens, flag):
        if self.seen.get(ident) == flag:
            return False
        self.forget(ident, tokens)
        self.add(tokens, flag, 1)
        self.seen[ident] = flag
        return True

    def forget(self, ident, tokens):
        if ident not in self.seen:
            return False
        self.add(tokens, self.seen.pop(ident), -1)
        return True


def same(obs, w, model, what):
    sums, tokens, seen, single = w.state()
    obs.count("states")
    obs.expect(single and len(sums) <= 1, "rows", "after %s a token, message or total is stored twice: %s", what, sums)
    got = tuple(sums[0]) if sums else (0, 0)
    ok = obs.expect(got == tuple(model.sums), "messages", "after %s the database counts %s spam and ham messages, not %s",
                    what, got, model.sums)
    low = [x for x in list(tokens.values()) + [got] if min(x) < 0]
    ok = obs.expect(not low, "negative", "after %s there are negative counts: %s", what, low) and ok
    left = dict((t, c) for t, c in tokens.items() if c != (0, 0))
    want = dict((t, c) for t, c in model.tokens.items() if c != (0, 0))
    if left != want:
        diff = sorted((t.hex(), left.get(t, (0, 0)), want.get(t, (0, 0))) for t in set(left) | set(want) if left.get(t) != want.get(t))
        obs.violation("tokens", "after %s %d of %d tokens are wrong: (token, counts, expected counts) %s" % (
            what, len(diff), len(want), diff[:4]))
        ok = False
    return obs.expect(seen == model.seen, "seen", "after %s the learned messages are %s, not %s", what, seen, model.seen) and ok


def run(case, obs):
    rng = random.Random(case["seed"])
    raws = [build(m) for m in case["pool"]]
    with oah.TempDir() as d:
        # what each message consists of: learned alone, into an empty database
        tokens, idents = [], []
        for k, raw in enumerate(raws):
            w = World(d, "solo%d" % k, dict(case, use=True))
            msg = w.parse(raw)
            w.rs.ctxt.hook_report(msg)
            sums, toks, seen, single = w.state()
            obs.expect(single and sums == [(1, 0)] and list(seen.values()) == ["s"] and
                       all(c == (1, 0) for c in toks.values()), "first",
                       "learning one message as spam into an empty database gives %s, seen %s, token counts %s",
                       sums, seen, sorted(set(toks.values())))
            tokens.append(set(toks))
            idents.append(list(seen)[0] if seen else None)
            m = case["pool"][k]
            if m["shape"] in ("plain", "multi"):
                for t in m["words"]:
                    if 4 <= len(t) <= 15 and t not in STOP:
                        obs.count("words")
                        obs.expect(hashlib.sha1(t.encode()).digest()[-5:] in toks, "word",
                                   "the word %s of a learned body has no token", t)
            if m["id"] and m["id"] != "<>" and m["shape"] != "bare":
                obs.expect(list(seen) == [m["id"]], "ident", "a message with the id %s was learned as %s", m["id"], list(seen))
        for a in range(len(raws)):
            for b in range(a):
                if case["pool"][a]["id"] in (None, "<>") and case["pool"][b]["id"] in (None, "<>") and raws[a] != raws[b] and \
                        tokens[a] != tokens[b] and case["pool"][a]["shape"] == "bare" == case["pool"][b]["shape"]:
                    obs.expect(idents[a] != idents[b], "ident", "two messages without an id are taken for one: %r %r", raws[a], raws[b])
        w = World(d, "db", case)
        model = Model()
        kept, scanned = {}, set()
        last = None
        for n, (kind, k, how, other) in enumerate(case["ops"]):
            if kind == "restart":
                w.start()
                kept.clear()
                obs.count("restarts")
                continue
            if kind == "again":
                if not last:
                    continue
                kind, k = last
                obs.count("repeated")
            if kind == "relearn":
                if not last:
                    continue
                kind, k = "ham" if last[0] == "spam" else "spam", last[1]
                obs.count("moved")
            # what was scanned keeps its results
            msg = kept.get(k) if how == "kept" and not (kind == "scan" and k in scanned) else None
            if msg is None:
                msg = kept[k] = w.parse(raws[k])
            if kind == "scan":
                scanned.add(k)
            if how == "between":
                kept[other] = w.parse(raws[other])
                obs.count("interleaved")
            ctxt = w.rs.ctxt
            what = "operation %d (%s message %d, %s)" % (n, kind, k, how)
            if kind == "spam" or kind == "ham":
                (ctxt.hook_report if kind == "spam" else ctxt.hook_revoke)(msg)
                obs.count("learned")
                if case["use"]:
                    model.learn(idents[k], tokens[k], kind[0])
                last = (kind, k)
            elif kind == "forget":
                w.plugin.forget_message(msg, msg.msgid)
                if case["use"] and model.forget(idents[k], tokens[k]):
                    obs.count("forgotten")
            else:
                scan(case, obs, w, msg, tokens[k], model, what)
            if not same(obs, w, model, what):
                return
        if case["use"]:
            # forgetting everything leaves an empty database behind
            unique = len(set(idents)) == len(idents)
            for k in range(len(raws)):
                if idents[k] in model.seen:
                    msg = w.parse(raws[k])
                    w.plugin.forget_message(msg, msg.msgid)
                    model.forget(idents[k], tokens[k])
            if same(obs, w, model, "forgetting everything") and unique:
                obs.count("emptied")
                obs.expect(model.sums == [0, 0], "model", "%s", model.sums)
    obs.nontrivial(raws, case["ops"])
    obs.sample({"ops": case["ops"], "first": raws[0]}, 2)


def scan(case, obs, w, msg, tokens, model, what):
    w.rs.match(msg)
    obs.count("scans")
    out = w.rs.get_adjusted_message(msg)
    heads = dict(re.findall(r"^X-Spam-(Bayes|Hammy|Spammy): ?(.*(?:\n[ \t].*)*)", out, re.M))
    hit = [n for n, v in msg.rules_checked.items() if v and n.startswith("BAYES_")]
    lo = (200, 200) if case["min"] is None else case["min"]
    score, spammy, hammy, vague = None, 0, 0, False
    if case["use"] and model.sums[0] >= lo[0] and model.sums[1] >= lo[1]:
        score, spammy, hammy, vague = classify(tokens, model.sums, model.tokens, case["hapaxes"])
    if vague:
        obs.count("vague")
        return
    got = number(heads.get("Bayes"))
    if score is None:
        obs.count("unclassified")
        obs.expect(got is None, "unclassified", "in %s a message was given the Bayes score %s without enough learned "
                   "(%s of %s messages)", what, got, model.sums, lo)
        obs.expect(not hit, "unclassified", "in %s %s hit without a Bayes score", what, hit)
        return
    obs.count("classified")
    if len([t for t in tokens if t in model.tokens]) > 150:
        obs.count("many")
    if not obs.expect(got is not None, "score", "in %s there is no Bayes score: expected %s", what, score):
        return
    obs.expect(0 <= got <= 1, "bounds", "in %s the Bayes score is %s", what, got)
    obs.expect(abs(got - score) < 1e-7, "score", "in %s the Bayes score is %r, not %r (%s messages, %d spammy and %d hammy "
               "of %d tokens)", what, got, score, model.sums, spammy, hammy, len(tokens))
    # the ranges: disjoint, and together everything
    ranges = RANGES[case["ranges"]]
    for n, a, b in ranges:
        if abs(got - a) > 1e-9 and (b is None or abs(got - b) > 1e-9) or got == 0 or got == 1:
            want = (a < got or a == got == 0) and (b is None or got <= b)
            obs.expect(("BAYES_" + n in hit) == want, "range", "in %s the score %r and the range %s to %s: %s", what, got, a, b, hit)
    if got == 0 or got == 1:
        obs.count("certain")
    obs.expect(len(hit) == 1, "ranges", "in %s the score %r hits %s of ranges that cover everything", what, got, hit)
    for key, count in (("Hammy", hammy), ("Spammy", spammy)):
        probs = [float(p) for p in re.findall(r"(?:^|, )\s*(-?\d+\.\d{3})-", heads.get(key, ""))]
        obs.count("probabilities", len(probs))
        obs.expect(all(0 <= p <= 1 for p in probs), "bounds", "in %s there are token probabilities %s", what, probs)
        obs.expect(all((p < .5) == (key == "Hammy") for p in probs), "sides", "in %s %s tokens with probabilities %s", what, key, probs)
        obs.expect(bool(probs) == bool(count), "tokens-reported", "in %s %d %s tokens are reported as %r", what, count, key,
                   heads.get(key, "")[:200])
    # what was only ever spam (ham) speaks for spam (ham)
    for side in (0, 1):
        mine = [model.tokens.get(t, (0, 0)) for t in tokens]
        if not any(c[1 - side] for c in mine) and model.sums[0] == model.sums[1]:
            obs.count("one-sided")
            obs.expect((got > .5) == (side == 0), "pushed", "in %s a message of tokens learned only as %s has the score %s",
                       what, ["spam", "ham"][side], got)


if __name__ == "__main__":
    core.main("C22", gen, run, (360, 20000),
              "2-5 messages (generated ids, shared ids, hostile words, several shapes) and 4-22 operations on one database: learn, "
              "repeat, move, forget, scan, restart, with other messages parsed in between; a case is one history",
              require={"states": 1500, "learned": 700, "forgotten": 100, "moved": 60, "repeated": 60, "scans": 250,
                       "classified": 60, "unclassified": 60, "interleaved": 300, "words": 2000, "probabilities": 300,
                       "one-sided": 8, "emptied": 100, "certain": 2, "many": 5},
              budget=(200, 800))
