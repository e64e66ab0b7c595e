"""C29: the command line tool against the library, one message and one configuration at a time."""
import itertools
import os
import re
import subprocess
import sys

from vh import core, mailgen, oah

import oa.rules.parser

RECORDER = '''
import os
import oa.plugins.base


class Recorder(oa.plugins.base.BasePlugin):
    """Writes down what the tool asks for."""

    def note(self, what, msg):
        with open(os.environ["C29_LOG"], "a", encoding="utf-8", errors="replace") as f:
            f.write("%s %r\\n" % (what, msg.raw_msg))

    def check_start(self, msg):
        self.note("start", msg)

    def check_end(self, ruleset, msg):
        self.note("check", msg)

    def plugin_report(self, msg):
        self.note("report", msg)

    def plugin_revoke(self, msg):
        self.note("revoke", msg)
'''
WORDS = ["free", "offer", "hello", "click", "example", "dear", "viagra", "money", "stock", "fox"]
FILES = ["10_a.cf", "20_b.cf", "9_c.cf", "local.cf", "Zz.cf", "v310.pre", "init.pre", "A.pre", "old.cf.bak", "notes.txt",
         "x.CF", "cf", ".hidden.cf", "pre"]
BAD = ["body BROKEN /(/", "score BROKEN_SCORE one", "header BROKEN_H nothing",
       "meta BROKEN_M A +", "body BROKEN_D nodelimiter"]


def gen_file(rng, tag, first=False):
    out = []
    for n in range(rng.choice([0, 1, 2, 3, 5])):
        r = rng.random()
        rule = "R%d" % rng.randrange(4)
        if r < 0.35:
            out.append("%s %s /%s/%s" % (rng.choice(["body", "body", "rawbody", "full"]), rule, rng.choice(WORDS),
                                        rng.choice(["", "i"])))
        elif r < 0.45:
            out.append("header %s Subject =~ /%s/i" % (rule, rng.choice(WORDS)))
        elif r < 0.7:
            out.append("score %s %s" % (rule, rng.choice(["1", "-2.5", "3", "0.1", "6", "0"])))
        elif r < 0.78:
            out.append("describe %s described in %s" % (rule, tag))
        elif r < 0.84:
            out.append("required_score %s" % rng.choice(["1", "3", "5", "-1"]))
        elif r < 0.9:
            out.append("add_header all N%s from %s" % (re.sub("[^a-zA-Z]", "", tag), tag))
        elif r < 0.94:
            out.append("clear_report_template")
        elif r < 0.96:
            out.append("remove_header all N%s" % re.sub("[^a-zA-Z]", "", tag))
        else:
            out.append("meta %s R0 + R1 > 1" % rule)
    # The report of a message shows which files were read, and in which order
    out.append("report read %s" % tag)
    return out


def gen_message(rng):
    r = rng.random()
    if r < 0.45:
        raw = mailgen.message(rng)
        if isinstance(raw, str):
            raw = raw.encode("utf-8", "replace")
    elif r < 0.9:
        raw = ("From: a@example.com\nSubject: %s\n%s\n%s\n" % (
            " ".join(rng.sample(WORDS, 3)), rng.choice(["", "X-A: \u00e9\n", "Content-Type: text/plain; charset=utf-8\n"]),
            "\n".join(" ".join(rng.sample(WORDS, rng.randint(1, 5))) for _ in range(rng.randint(0, 4))))).encode("utf-8")
    else:
        raw = rng.choice([b"", b"\n", b"no headers here", b"Subject: x", b"Subject: free\n\noffer", b"\xff\xfe\x00free\n",
                          b"Subject: \xe9 free\n\nclick \xe9\xe8 \xc3\xa9 \x00\n", b"From x\nSubject: hello\n\nfox"])
    if rng.random() < 0.2:
        raw = raw.replace(b"\r\n", b"\n").replace(b"\n", b"\r\n")
    if rng.random() < 0.1:
        k = rng.randint(0, len(raw))
        raw = raw[:k] + bytes([rng.randrange(128, 256)]) + raw[k:]
    return raw.decode("latin-1")


def gen(rng, i, tier):
    dirs = {"C": {}, "S": {}}
    for d in dirs:
        for name in rng.sample(FILES, rng.choice([0, 1, 2, 3, 4])):
            dirs[d][name] = gen_file(rng, d + "/" + name)
    r = rng.random()
    expect = "ok"
    if r < 0.1:
        expect = rng.choice(["missing-message", "missing-config", "paranoid", "no-config", "include-loop"])
    return {"dirs": dirs, "same": rng.choice([None] * 6 + ["same", "slash", "dot", "link"]),
            "prefs": gen_file(rng, "prefs") if rng.random() < 0.6 else None,
            "prefs_how": rng.choice(["-p", "--prefspath", "--prefs-file", "home", "tilde"]),
            "copt": rng.choice(["-C", "--configpath"]), "sopt": rng.choice(["-S", "--sitepath", "--siteconfigpath"]),
            "msgs": [gen_message(rng) for _ in range(rng.choice([1, 1, 2, 3, 5]))],
            "how": rng.choice(["files", "files", "files", "dir", "mixed", "stdin", "dash", "twice"]),
            "mode": rng.choice(["plain", "plain", "-t", "-t", "-R", "-r", "-k", "--test-mode", "--report", "--revoke",
                                "--report-only"]),
            "extra": rng.choice([[], [], [], ["-dl"], ["-D"], ["-P"], ["--show-unknown"], ["-n", "5"]]),
            "safe": rng.choice([0, 0, 1, 2]), "expect": expect, "bad": rng.choice(BAD), "seed": rng.randrange(1 << 30)}


def canon(text):
    """The boundary and the time of the wrapper are new every time."""
    text = re.sub(r"===============\d+==", "BOUNDARY", text)
    text = re.sub(r"(OrangeAssassin \(version [^)]*\));[^\n]*(\n[ \t][^\n]*)*", r"\1", text)
    return re.sub(r"(?m)^Date: \w+, +\d+ \w+ 20[2-9]\d [^\n]*$", "Date", text)


def order(case, dirs):
    """The files in the documented order: site .pre, other .pre and .cf, site .cf; preferences last."""
    def those(d, ext):
        return [(d, n) for n in sorted(dirs[d]) if n.endswith(ext)]
    if case["same"]:
        return those("S", ".pre") + those("S", ".cf")
    return those("S", ".pre") + those("C", ".pre") + those("C", ".cf") + those("S", ".cf")


def run(case, obs):
    import random
    rng = random.Random(case["seed"])
    with oah.TempDir() as tmp:
        home = os.path.join(tmp, "home")
        os.makedirs(os.path.join(home, ".spamassassin"))
        log = os.path.join(tmp, "log")
        plugin = oah.write(os.path.join(tmp, "rec.py"), RECORDER)
        dirs = {d: dict(case["dirs"][d]) for d in case["dirs"]}
        expect = case["expect"]
        if expect == "no-config":
            dirs = {d: {n: t for n, t in dirs[d].items() if not n.endswith((".cf", ".pre"))} for d in dirs}
        else:
            first = ["loadplugin Recorder %s" % plugin, "report_safe %d" % case["safe"],
                     "clear_report_template", "report score _SCORE_ tests _TESTS_"]
            # Whatever the order of the files is, the recorder is loaded and the report has the result
            dirs["S"]["0.pre"] = first + dirs["S"].get("0.pre", [])
            if expect == "paranoid":
                dirs["S"]["5_bad.cf"] = [case["bad"]]
            if expect == "include-loop":
                dirs["S"]["5_loop.cf"] = ["include 5_loop.cf"]
        for d in dirs:
            os.makedirs(os.path.join(tmp, d))
            for n, lines in dirs[d].items():
                oah.write(os.path.join(tmp, d, n), "\n".join(lines) + "\n")
        files = [os.path.join(tmp, d, n) for d, n in order(case, dirs)]
        prefs = None if expect == "no-config" else case["prefs"]
        args = []
        cdir, sdir = os.path.join(tmp, "C"), os.path.join(tmp, "S")
        if case["same"]:
            cdir = {"same": sdir, "slash": sdir + "/", "dot": os.path.join(tmp, "C", "..", "S"),
                    "link": os.path.join(tmp, "link")}[case["same"]]
            if case["same"] == "link":
                os.symlink(sdir, cdir)
        if expect == "missing-config":
            if rng.random() < 0.5:
                cdir = os.path.join(tmp, "nowhere")
            else:
                sdir = os.path.join(tmp, "nowhere")
        opts = [[case["copt"], cdir], [case["sopt"], sdir]]
        how = case["prefs_how"]
        if how == "home":
            ppath = os.path.join(home, ".spamassassin", "user_prefs")
        elif how == "tilde":
            ppath = os.path.join(home, "my prefs")
            opts.append(["-p", "~/my prefs"])
        else:
            ppath = os.path.join(tmp, "prefs.txt")
            opts.append([how, ppath])
        if prefs is not None:
            oah.write(ppath, "\n".join(prefs) + "\n")
            files.append(ppath)
        if case["mode"] != "plain":
            opts.append([case["mode"]])
        extra = list(case["extra"])
        if expect == "paranoid":
            extra = ["-P"]
        if extra:
            opts.append(extra)
        rng.shuffle(opts)
        for o in opts:
            args += o
        # The messages
        msgs = [m.encode("latin-1") for m in case["msgs"]]
        mdir = os.path.join(tmp, "mail box")
        os.makedirs(mdir)
        how = case["how"]
        if expect != "ok" and how in ("dir", "mixed"):
            how = "files"
        if how in ("stdin", "dash"):
            msgs = msgs[:1]
        paths = []
        for n, m in enumerate(msgs):
            paths.append(oah.write(os.path.join(mdir, "%s%d.eml" % (rng.choice("abc"), n)), m))
        groups = [[n] for n in range(len(msgs))]       # what is printed in any order
        given = list(paths)
        stdin = b""
        if how == "dir":
            given, groups = [mdir], [list(range(len(msgs)))]
        elif how == "mixed":
            extra_file = oah.write(os.path.join(tmp, "one more"), b"Subject: free\n\nfree offer\n")
            msgs.append(b"Subject: free\n\nfree offer\n")
            given, groups = [extra_file, mdir], [[len(msgs) - 1], list(range(len(msgs) - 1))]
        elif how == "twice":
            given, groups = paths + paths[:1], groups + [[0]]
        elif how in ("stdin", "dash"):
            given, stdin = ([] if how == "stdin" else ["-"]), msgs[0]
        cut = None
        if expect == "missing-message":
            if how in ("stdin", "dash"):
                given = [os.path.join(tmp, "not there")]
                groups, cut = [], 0
            else:
                cut = rng.randint(0, len(given))
                given.insert(cut, os.path.join(tmp, "not there"))
                groups = groups[:cut]
        env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": home, "PYTHONPATH": core.REPO, "C29_LOG": log,
               "PYTHONDONTWRITEBYTECODE": "1"}
        env.update(rng.choice([{}, {"LC_ALL": "C"}, {"LC_ALL": "en_US.utf8"}, {"LANG": "en_GB.utf8"}]))
        rng_args = args + given if rng.random() < 0.7 or not given else given + args
        p = subprocess.run([sys.executable, os.path.join(core.REPO, "scripts", "match.py")] + rng_args, input=stdin,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=tmp, timeout=120)
        out = p.stdout.decode("utf-8", "replace")
        err = p.stderr.decode("utf-8", "replace")
        obs.count("runs")
        obs.count("expect_" + expect)
        noted = []
        if os.path.exists(log):
            with open(log, encoding="utf-8") as f:
                noted = f.read().splitlines()
        line = " ".join(rng_args).replace(tmp, "T")
        action = {"-r": "report", "--report": "report", "-k": "revoke", "--revoke": "revoke"}.get(case["mode"])
        if expect in ("missing-config", "paranoid", "no-config", "include-loop"):
            obs.expect(p.returncode != 0, "bad-input-status", "%s (%s): exit status 0, output %r", expect, line, out[:300])
            obs.expect(err.strip() != "", "bad-input-silent", "%s (%s): nothing on the standard error", expect, line)
            obs.expect(out.strip() == "", "bad-input-verdict", "%s (%s): prints %r", expect, line, out[:300])
            obs.expect(not noted, "bad-input-action", "%s (%s): %s", expect, line, noted[:3])
            obs.nontrivial(expect, line)
            return
        if "-P" in extra:
            parser = oa.rules.parser.PADParser(paranoid=True)
            os.environ["C29_LOG"] = os.path.join(tmp, "ignored")
            try:
                for f in files:
                    parser.parse_file(f)
                parser.get_ruleset()
            except oa.errors.ParsingError:
                obs.count("refused_paranoid")
                obs.expect(p.returncode != 0 and err.strip() and not out and not noted, "bad-input-paranoid",
                           "%s: status %s, prints %r, %r", line, p.returncode, out[:200], err[-300:])
                return
        # What the library says about each of the messages, alone, with the same files
        ruleset, parser = None, oa.rules.parser.PADParser()
        with oah.lazy("-dl" not in case["extra"]):
            old = os.environ.get("C29_LOG")
            os.environ["C29_LOG"] = os.path.join(tmp, "ignored")
            try:
                want = {}
                for n, m in enumerate(msgs):
                    parser = oa.rules.parser.PADParser(lazy_mode="-dl" not in case["extra"])
                    for f in files:
                        parser.parse_file(f)
                    rs = parser.get_ruleset()
                    msg = oah.scan(rs, m.decode("utf-8", "ignore"))
                    adj, rep = rs.get_adjusted_message(msg), rs.get_report(msg)
                    want[n] = {"plain": adj + "\n", "-t": adj + "\n" + rep + "\n", "-R": rep + "\n"}[
                        {"--test-mode": "-t", "--report-only": "-R"}.get(case["mode"], case["mode"])
                        if not action else "plain"]
                    obs.seen("verdict", (msg.score >= rs.conf["required_score"], len(oah.hits(msg))))
            finally:
                if old is None:
                    os.environ.pop("C29_LOG", None)
                else:
                    os.environ["C29_LOG"] = old
        if expect == "ok":
            obs.expect(p.returncode == 0, "status", "%s: exit status %s, %s", line, p.returncode, err[-600:])
        else:
            obs.expect(p.returncode != 0, "bad-input-status", "%s (%s): exit status 0, output %r", expect, line, out[:300])
            obs.expect("not there" in err, "bad-input-silent", "%s (%s): no word of it on the standard error: %r", expect,
                       line, err[-300:])
        total = sum(len(g) for g in groups)
        if action:
            tail = "%d message(s) examined\n" % total
            if expect == "ok":
                obs.expect(out == tail, "actions-output", "%s: prints %r instead of %r", line, out[:300], tail)
        else:
            got = canon(out)
            obs.count("outputs_compared", total)
            ok = any(got == canon("".join(want[n] for g in perm for n in g))
                     for perm in itertools.product(*[itertools.permutations(g) for g in groups]))
            if not ok:
                w = canon("".join(want[n] for g in groups for n in g))
                k = next((k for k, (a, b) in enumerate(zip(got, w)) if a != b), min(len(got), len(w)))
                obs.violation("output", "%s: at %d of %d/%d: %r instead of %r; files %s" % (
                    line, k, len(got), len(w), got[max(0, k - 60):k + 120], w[max(0, k - 60):k + 120],
                    [f.replace(tmp, "T") for f in files]))
            # The order of the files, from the report template alone
            if case["mode"] != "plain" and expect == "ok":
                lines = []
                for f in files:
                    with open(f, encoding="latin-1") as fh:
                        for ln in fh.read().splitlines():
                            if ln == "clear_report_template":
                                lines = []
                            elif ln.startswith("report ") and "_" not in ln.split(" ", 1)[1].split("/")[0]:
                                lines.append(ln[7:])
                seen = [ln for ln in out.splitlines() if re.match(r"read ([CS]/\S+|prefs)$", ln)]
                obs.expect(seen[-len(lines):] == [x for x in lines if x.startswith("read ")] if lines else True,
                           "file-order", "%s: the report shows %s, the files were %s", line, seen[:30], lines)
        # Only the requested actions
        wanted = []
        for g in groups:
            for n in g:
                text = repr(msgs[n].decode("utf-8", "ignore").replace("\r\n", "\n").replace("\r", "\n"))
                wanted += [("start", text)] if action is None else []
                wanted += [("check" if action is None else action, text)]
        did = [tuple(x.split(" ", 1)) for x in noted]
        did = [x for x in did if not (action and x[0] == "start")]
        if any(len(g) > 1 for g in groups):
            same = sorted(did) == sorted(wanted)
        else:
            same = did == wanted
        obs.count("actions", len(did))
        obs.expect(same, "actions", "%s: did %s instead of %s", line, [(a, b[:60]) for a, b in did],
                   [(a, b[:60]) for a, b in wanted])
        obs.nontrivial(case["mode"], how, len(files), tuple(want[n] for n in sorted(want)))
        if len(files) > 4:
            obs.sample({"arguments": line, "files": [f.replace(tmp, "T") for f in files], "printed": out[-200:]})


if __name__ == "__main__":
    core.main("C29", gen, run, (320, 6000),
              "one run of scripts/match.py per case against the library, per message, with the same files",
              require={"runs": 200, "outputs_compared": 200, "actions": 200, "expect_missing-message": 2,
                       "expect_missing-config": 2, "expect_paranoid": 2, "expect_no-config": 2})
