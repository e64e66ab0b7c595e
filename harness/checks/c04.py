"""C04: rule patterns against Perl itself as the reference implementation."""
import os
import shutil
import subprocess

from vh import core, oah
import oa.errors
import oa.regex

DELIMS = [("/", "/"), ("{", "}"), ("%", "%"), ("<", ">"), ("'", "'"), ("~", "~"), (",", ","),
          ("!", "!"), (";", ";")]
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PERL = None


def perl(op, literal, texts):
    global PERL
    if PERL is None or PERL[0] != os.getpid():
        PERL = (os.getpid(), subprocess.Popen(
            [shutil.which("perl"), os.path.join(HERE, "perl_re.pl")],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE))
    p = PERL[1]
    line = " ".join([op, literal.encode("utf8").hex()] +
                    ["x" + t.encode("utf8").hex() for t in texts])
    p.stdin.write(line.encode() + b"\n")
    p.stdin.flush()
    out = p.stdout.readline().decode().strip()
    if not out or out == "E":
        return None
    return [c == "1" for c in out]


CHARS = "abcABC12_- .@:=x"
SPECIAL = "/{}%<>'~,!;.^$*+?()[]|\\#-\"&="


def atom(rng, depth, st):
    r = rng.random()
    if r < 0.38:
        return rng.choice("aabbcABC12xy")
    if r < 0.45:
        return rng.choice(["e\u00e9", "\u00e9", "\u00c9", "z"]) if st["latin"] else "b"
    if r < 0.53:
        return "\\" + rng.choice(SPECIAL + "@")
    if r < 0.60:
        return rng.choice([" ", " ", "_", "-", ":", "=", "\"", "&"])
    if r < 0.66:
        return rng.choice(["\\d", "\\w", "\\s", "\\D", "\\W", "\\S", "\\x41", "\\t", "\\n"])
    if r < 0.72:
        return "."
    if r < 0.82:
        neg = rng.choice(["", "", "^"])
        items = [rng.choice(["a", "b", "A-C", "a-c", "0-9", "\\w", "\\d", "\\s", "_", ".", "\\-",
                             "\\]", "\\\\", " ", "x", "\\/", "+", "\\."]) for _ in range(rng.randint(1, 3))]
        return "[" + neg + "".join(items) + "]"
    if depth <= 0:
        return rng.choice("abc")
    if r < 0.92:
        op = rng.choice(["(?:", "(", "("])
        return op + alt(rng, depth - 1, st) + ")"
    if r < 0.94:
        return "(?>" + rng.choice(["a", "b", "ab", "[ab]"]) + ")"
    if r < 0.96:
        return "\\(?" + rng.choice(["i:", ">", "a", "x:"])      # an optional parenthesis
    # (perl 5.38 mis-optimises lookaheads that can match nothing, keep them simple)
    return rng.choice(["(?=", "(?!"]) + "|".join(
        rng.choice(["a", "b", "ab", "[a-c]", "\\d", "c\\w", "x."]) for _ in range(rng.randint(1, 2))) + ")"


def piece(rng, depth, st):
    r = rng.random()
    if r < 0.08:
        return rng.choice(["\\b", "\\B", "\\b?", "\\B?", "\\\\b?"])
    a = atom(rng, depth, st)
    if a.startswith(("(?=", "(?!")) or a in ("\\\\b?",):
        return a
    r = rng.random()
    if r < 0.62 or len(a) > 1 and a.startswith("\\(?"):
        return a
    q = rng.choice(["*", "+", "?", "{2}", "{1,2}", "{2,}", "{0,3}"])
    if len(a) > 1 and a[0] == "(" and q[0] in "*+":      # no nested unbounded repetition
        q = "{1,2}"
    if len(a) > 1 and a[0] not in "([\\":
        a = "(?:" + a + ")"
    return a + q


def seq(rng, depth, st):
    return "".join(piece(rng, depth, st) for _ in range(rng.randint(1, 4)))


def alt(rng, depth, st):
    return "|".join(seq(rng, depth, st) for _ in range(rng.choice([1, 1, 1, 2, 3])))


def mutate(rng, s):
    s = list(s)
    for _ in range(rng.randint(1, 3)):
        k = rng.randint(0, 2)
        i = rng.randint(0, len(s))
        if k == 0:
            s.insert(i, rng.choice(CHARS + SPECIAL))
        elif s and i < len(s):
            if k == 1:
                s[i] = rng.choice(CHARS).swapcase()
            else:
                del s[i]
    return "".join(s)


def literalise(rng, pat):
    """A text likely to match: the pattern with its syntax knocked out."""
    out, i = [], 0
    while i < len(pat):
        c = pat[i]
        if c == "\\" and i + 1 < len(pat):
            n = pat[i + 1]
            out.append({"d": "7", "w": "q", "s": " ", "n": "\n", "t": "\t", "b": "", "B": "", "D": "z",
                        "W": "-", "S": "s", "x": "A"}.get(n, n))
            i += 4 if n == "x" else 2
            continue
        if c == "[":
            j = pat.find("]", i + 2)
            body = pat[i + 1:j]
            out.append(rng.choice([x for x in body if x not in "^\\"] or ["a"]))
            i = j + 1
            continue
        if c == "{":
            j = pat.find("}", i)
            if j > 0:
                if out:
                    out.append(out[-1])
                i = j + 1
                continue
        if c == "(":
            if pat[i + 1:i + 2] == "?":
                i += 3
            else:
                i += 1
            continue
        if c == "|":
            if rng.random() < 0.5:
                break
            out = []
            i += 1
            continue
        if c in ")^$*+?":
            i += 1
            continue
        out.append("x" if c == "." else c)
        i += 1
    return "".join(out)


ROUTES = ["direct", "subject", "rawbody", "body", "full"]
MALFORMED = ["/(a/", "/a", "a/", "", "m", "/[a/", "/*a/", "|a|", "\"a\"", "/a)/", "/(?P<n/", "/a**/",
             "#a#", "m|a|", "{a", "<a", "/(?<a)b/", "/(?!a/", "/[z-a]/", "/a{3,2}/", "abc", "=", "m("]


def gen(rng, i, tier):
    if i % 12 == 11:
        return {"kind": "bad", "pattern": rng.choice(MALFORMED),
                "type": rng.choice(["body", "rawbody", "full", "uri", "header", "mimeheader"]),
                "pos": rng.randint(0, 2), "lazy": rng.random() < 0.5}
    st = {"latin": rng.random() < 0.2}
    route = rng.choice(ROUTES)
    multiline = route in ("direct", "rawbody", "full")
    if route == "full":
        st["latin"] = False
    pat = alt(rng, rng.choice([0, 1, 2]), st)
    if rng.random() < 0.3:
        pat = "^" + (("(?:%s)" % pat) if "|" in pat else pat)
        if rng.random() < 0.15:
            pat = "^(a|b|ab)\\b?(?:" + pat[1:] + ")?\\1"
    if rng.random() < 0.3:
        pat = (("(?:%s)" % pat) if "|" in pat else pat) + "$"
    flags = "".join(f for f in "imsxo" if rng.random() < 0.3)
    if "x" in flags:
        pat = pat.replace("#", "\\#") if "\\#" not in pat else pat
        if rng.random() < 0.5:
            pat = pat.replace("(", " ( ") if "(?" not in pat and "\\(" not in pat and "[" not in pat else pat
    if "x" in flags:
        import re
        pat = re.sub(r"(?<!\\) (?=[*+?{])", r"\\ ", pat)
    op, cl = rng.choice(DELIMS + [("/", "/")] * 4)
    if op == "," and "{" in pat or op == "!" and "(?!" in pat:
        op = cl = "/"          # these would need the delimiter unescaped
    # the delimiter must be escaped inside the pattern
    esc, k = [], 0
    bracket = op in "{<"
    while k < len(pat):
        c = pat[k]
        if c == "\\":
            esc.append(pat[k:k + 2])
            k += 2
            continue
        if c in (op, cl) and not bracket:
            esc.append("\\" + c)
        else:
            esc.append(c)
        k += 1
    body = "".join(esc)
    if op == "<" and (body.count("<") - body.count("\\<")) != (body.count(">") - body.count("\\>")):
        op = cl = "/"
        body = pat.replace("\\/", "\0").replace("/", "\\/").replace("\0", "\\/")
    m = "m" if op != "/" else rng.choice(["", "", "m"])
    literal = m + op + body + cl + flags
    texts = []
    for _ in range(8):
        r = rng.random()
        if r < 0.55:
            t = literalise(rng, pat)
            if rng.random() < 0.5:
                t = mutate(rng, t)
        else:
            t = "".join(rng.choice(CHARS + SPECIAL) for _ in range(rng.randint(1, 12)))
        if rng.random() < 0.4:
            t = rng.choice(["xx ", "q", "-", "1 ", ("a\n" if multiline else "a ")]) + t
        if rng.random() < 0.4:
            t = t + rng.choice([" yy", "k", "!", ("\nb" if multiline else " b")])
        if rng.random() < 0.2:
            t = t.swapcase()
        if not multiline:
            t = t.replace("\n", " ").replace("\t", " ")
        t = " ".join(x for x in t.split(" ")) if multiline else " ".join(t.split())
        t = t.strip() or "a"
        if not st["latin"]:
            t = t.encode("ascii", "ignore").decode() or "a"
        texts.append(t)
    return {"kind": "re", "literal": literal, "texts": texts, "route": route,
            "op": rng.choice(["=~", "=~", "!~"]) if route in ("direct", "subject") else "=~",
            "bare": op != "/" and rng.random() < 0.5, "lazy": rng.random() < 0.6}


def run_bad(case, obs):
    t, p = case["type"], case["pattern"]
    val = p
    if t == "header":
        val = "Subject =~ " + p
    elif t == "mimeheader":
        val = "Content-Type =~ " + p
    if not p and t not in ("header", "mimeheader"):
        val = "m"
    lines = ["body G1 /good/", "header G2 Subject =~ /subj/", "full G3 /never/"]
    lines.insert(case["pos"], "%s BAD %s" % (t, val))
    cf = "\n".join(lines) + "\n"
    try:
        oah.load(cf, paranoid=True)
    except (oa.errors.InvalidRegex, oa.errors.InvalidRule, oa.errors.InvalidSyntax):
        obs.count("malformed_rejected_paranoid")
    else:
        obs.violation("malformed-accepted", "%r accepted in paranoid mode" % val)
    with oah.lazy(case["lazy"]):
        rs, _ = oah.load(cf, lazy_mode=case["lazy"])
        obs.expect("BAD" not in rs.checked and "BAD" not in rs.not_checked, "malformed-loaded",
                   "%r became a rule", val)
        msg = oah.scan(rs, "Subject: subj\n\ngood ( [ a\n")
        obs.expect(sorted(oah.hits(msg)) == ["G1", "G2"], "malformed-disturbs",
                   "with %r the other rules gave %r", val, oah.hits(msg))
    obs.count("malformed")
    obs.nontrivial("bad", val)


def run(case, obs):
    if case["kind"] == "bad":
        return run_bad(case, obs)
    literal, texts, route, op = case["literal"], case["texts"], case["route"], case["op"]
    shown = literal
    if case["bare"] and literal[0] == "m":
        shown = literal[1:]
    if route != "direct" and "#" in shown:
        # "#" starts a comment in configuration files unless escaped
        for k, c in enumerate(shown):
            if c == "#" and shown[k - 1] != "\\":
                route = "direct"
    if route == "full":
        prefix = ""
    want_texts = texts
    if route == "body":
        want_texts = ["s " + " ".join(t.split("\n")) for t in texts]
    if route == "full":
        want_texts = ["Subject: s\n\n" + t for t in texts]
    expected = perl(op, literal, want_texts)
    if expected is None:
        obs.count("perl_rejects")
        return
    obs.count("route_" + route)
    with oah.lazy(case["lazy"]):
        got = []
        if route == "direct":
            try:
                pat = oa.regex.perl2re(shown, op)
            except oa.errors.InvalidRegex as e:
                obs.violation("valid-rejected", "%s rejected: %s" % (shown, e))
                return
            got = [bool(pat.match(t)) for t in texts]
        else:
            if route == "subject":
                cf = "header R Subject %s %s\n" % (op, shown)
            else:
                cf = "%s R %s\n" % (route, shown)
            rs, _ = oah.load(cf, lazy_mode=case["lazy"])
            if "R" not in rs.checked:
                obs.violation("valid-rejected", "%s not loaded" % cf)
                return
            for t in texts:
                if route == "subject":
                    import email.header
                    raw = "Subject: %s\n\nx\n" % (
                        t if all(ord(c) < 127 for c in t) and "=?" not in t else
                        email.header.Header(t, "utf-8", maxlinelen=9999).encode())
                elif route == "full":
                    raw = "Subject: s\n\n" + t
                else:
                    raw = "Subject: s\nContent-Type: text/plain; charset=iso-8859-1\n" \
                          "Content-Transfer-Encoding: base64\n\n" + \
                          __import__("base64").b64encode(t.encode("latin1")).decode() + "\n"
                msg = oah.scan(rs, raw)
                got.append("R" in oah.hits(msg))
    obs.count("matches_compared", len(got))
    obs.count("positive", sum(expected))
    if got != expected:
        # perl's optimiser is wrong now and then: ask again with it out of the way
        at = literal.index(literal.lstrip("m")[0]) + 1
        again = perl(op, literal[:at] + "(?{})" + literal[at:], want_texts)
        if again != expected:
            obs.count("perl_disagrees_with_itself")
            expected = again
    if expected is not None and got != expected:
        k = [i for i in range(len(got)) if got[i] != expected[i]][0]
        obs.violation("match-" + route, "%s %s on %r: oa says %s, perl says %s" % (
            op, shown, want_texts[k], got[k], expected[k]))
    if expected and len(set(expected)) > 1:
        obs.count("discriminating")
        obs.nontrivial(literal, tuple(expected))
    obs.seen("delims", literal.lstrip("m")[:1])
    obs.sample({"pattern": op + " " + shown, "texts": texts[:3], "perl": expected and expected[:3]})


if __name__ == "__main__":
    core.main("C04", gen, run, (24000, 400000),
              "generated Perl patterns (all delimiters, flags imsx, classes, groups, quantifiers, "
              "anchors, lookaheads, converted constructs) x 8 texts, through perl2re and through "
              "body/rawbody/full/header rules in lazy and precompiled mode; distinct = pattern whose "
              "texts both match and do not match, by pattern and outcome",
              require={"matches_compared": 20000, "discriminating": 2000, "malformed": 200,
                       "route_subject": 500, "route_body": 500, "route_full": 500,
                       "route_rawbody": 500, "route_direct": 500, "delims": 9},
              assumptions=["perl 5 is the reference; constructs Python lacks (possessive "
                           "quantifiers, POSIX classes, inline (?i:) modifiers) are not generated"])
