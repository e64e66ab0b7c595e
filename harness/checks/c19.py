"""C19: plugin callbacks and the report/revoke requests, as event logs.

Recording plugins leave an event for everything the engine asks of them.  The expected log is computed
from the list of loaded plugins (load order, redefinition, inhibition) alone and compared event by event.
"""
import io
import os
import random
import re
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vh import core, daemon, oah, world
import oa
import oa.context
import vhrec
from scripts import match as match_tool

SCAN = ["check_start", "extract_metadata", "parsed_metadata", "check_end", "auto_learn"]
CLASSES = ["R%d" % i for i in range(5)]


def subset(rng, pool, p):
    return [x for x in pool if rng.random() < p]


def gen(rng, i, tier):
    specs = {}
    for mod in ("vhrec_a", "vhrec_b", "path0", "path1"):
        for c in CLASSES:
            specs["%s.%s" % (mod, c)] = (subset(rng, vhrec.EVALS, .4), subset(rng, vhrec.CMDS, .3),
                                         subset(rng, vhrec.OPTS, .4))
    classes = rng.sample(CLASSES, rng.choice([1, 2, 3, 3, 4, 5]))
    lines = []
    for _ in range(rng.choice([2, 4, 7])):
        r = rng.random()
        if r < .6:
            lines.append(("load", "%s.%s" % (rng.choice(["vhrec_a", "vhrec_b", "path0", "path1"]), rng.choice(classes))))
        elif r < .85:
            lines.append(("option", rng.choice(vhrec.OPTS), rng.randrange(100)))
        else:
            lines.append(("unload", rng.choice(classes)))
    if not any(l[0] == "load" for l in lines):
        lines.append(("load", "vhrec_a." + classes[0]))
    behave = []
    for label in specs:
        for hook in SCAN + ["report", "revoke", "parsing_start", "parsing_end"]:
            r = rng.random()
            if r < .06:
                behave.append(((label, hook), "inhibit"))
            elif r < .1 and not hook.startswith("parsing"):
                behave.append(((label, hook), "raise"))
    how = rng.choice(["library", "library", "daemon", "daemon", "tool"])
    if how != "library":
        lines = [l for l in lines if l[0] != "unload"]
    events = []
    for _ in range(rng.choice([2, 5, 9])):
        events.append({"what": rng.choice(["scan", "report", "revoke", "tell", "tell", "tell"] if how == "daemon" else
                                          ["scan", "report", "revoke"]),
                       "class": rng.choice([None, "spam", "ham", "Spam", "HAM", "other"]),
                       "set": rng.choice([None, "local", "remote", "local,remote", "local, remote", "none"]),
                       "remove": rng.choice([None, None, "local", "remote", "local,remote", "remote, local", "x"]),
                       "shape": rng.choice(["flat", "multi", "attach", "attach"]),
                       "text": rng.choice(["one", "tw\xe9o", "three %s"]) + str(rng.randrange(1000))})
    return {"specs": specs, "lines": lines, "behave": behave, "how": how, "events": events,
            "seed": rng.randrange(1 << 30)}


SHAPES = {
    "flat": (1, "From: a@b.c\nSubject: %s\n\nhello %s\n"),
    "multi": (3, "From: a@b.c\nSubject: %s\nMIME-Version: 1.0\nContent-Type: multipart/alternative; boundary=XX\n\n"
                 "--XX\nContent-Type: text/plain; charset=utf-8\n\nhello %s\n--XX\nContent-Type: text/html\n\n<b>hi</b>\n--XX--\n"),
    "attach": (4, "From: a@b.c\nSubject: %s\nMIME-Version: 1.0\nContent-Type: multipart/mixed; boundary=YY\n\n"
                  "--YY\nContent-Type: text/plain; charset=utf-8\n\nhello %s\n--YY\nContent-Type: image/png\n"
                  "Content-Transfer-Encoding: base64\n\naGFsbG8=\n--YY\nContent-Type: application/x\n\nabc\n--YY--\n"),
}


class Model(object):
    """The loaded plugins, in order, and who holds each name."""

    def __init__(self, specs, behave):
        self.specs, self.behave = specs, dict(behave)
        self.plugins = {}        # class -> label, in load order
        self.evals, self.cmds, self.opts = {}, {}, {}

    def unload(self, cls):
        label = self.plugins.pop(cls)
        for table in (self.evals, self.cmds):
            for k in [k for k, v in table.items() if v == label]:
                del table[k]
        return label

    def load(self, label):
        cls = label.split(".")[1]
        if cls in self.plugins:
            self.unload(cls)
        self.plugins[cls] = label
        evals, cmds, _ = self.specs[label]
        for e in evals:
            self.evals[e] = label
        for c in cmds:
            self.cmds[c] = label
        return [(label, "init", None)]

    def option(self, key):
        out = []
        for label in self.plugins.values():
            out.append((label, "parse_config", key))
            if key in self.specs[label][2]:
                break
        return out

    def chain(self, hook, detail=None):
        out = []
        for label in self.plugins.values():
            out.append((label, hook, detail))
            if self.behave.get((label, hook)) == "inhibit":
                break
        return out


def taken():
    """The events since the last call (label, hook, detail)."""
    log = list(vhrec.LOG)
    del vhrec.LOG[:]
    return log


def run(case, obs):
    rng = random.Random(case["seed"])
    model = Model(case["specs"], case["behave"])
    with oah.TempDir() as d:
        for mod in ("vhrec_a", "vhrec_b"):
            vhrec.module(mod, dict((l.split(".")[1], s) for l, s in case["specs"].items() if l.startswith(mod + ".")))
        for mod in ("path0", "path1"):
            text = "import vhrec\n"
            for label, (evals, cmds, opts) in sorted(case["specs"].items()):
                if label.startswith(mod + "."):
                    text += vhrec.SOURCE % (label.split(".")[1], label.split(".")[1], label, evals, cmds, opts)
            oah.write(os.path.join(d, mod + ".py"), text)
        vhrec.reset(case["behave"])
        try:
            go(case, obs, d, model, rng)
        finally:
            vhrec.reset()
    obs.nontrivial(case["lines"], case["how"], tuple((e["what"], e["set"], e["remove"]) for e in case["events"]))
    obs.sample({"lines": case["lines"], "how": case["how"], "events": case["events"][:3]}, 3)


def spelled(label, d):
    mod, cls = label.split(".")
    return (label, None) if mod.startswith("vhrec") else (cls, os.path.join(d, mod + ".py"))


def compare(obs, got, want, mech, what):
    got = [(l, h, x) for l, n, h, x in got]
    obs.count("events", len(got))
    if got != want:
        i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        obs.violation(mech, "%s: event %d of the log is %r, not %r (%d events, not %d)" % (
            what, i, got[i] if i < len(got) else None, want[i] if i < len(want) else None, len(got), len(want)))
        return False
    return True


def registered(obs, ctxt, model, numbers, what):
    """Everything that is registered belongs to a loaded plugin, to the one that registered it last."""
    obs.count("registry_checks")
    obs.expect(list(ctxt.plugins) == list(model.plugins), "plugins", "%s: loaded are %s, not %s", what,
               list(ctxt.plugins), list(model.plugins))
    have = dict((k, getattr(getattr(f, "__self__", None), "label", f)) for k, f in ctxt.eval_rules.items())
    obs.expect(have == model.evals, "evals", "%s: the eval rules are %s, not %s", what, have, model.evals)
    have = dict((k, getattr(c, "owner", c)) for k, c in ctxt.cmds.items())
    obs.expect(have == model.cmds, "cmds", "%s: the rule types are %s, not %s", what, have, model.cmds)
    for k, f in ctxt.eval_rules.items():
        if hasattr(getattr(f, "__self__", None), "number"):
            obs.expect(f.__self__.number == numbers.get(f.__self__.label), "stale-instance",
                       "%s: eval rule %s belongs to an earlier instance of %s", what, k, f.__self__.label)
    for cls, plugin in ctxt.plugins.items():
        for other in vhrec.OPTS:
            if other in (plugin.options or {}):
                obs.expect(plugin[other] == model.opts.get(cls, {}).get(other, 0), "option",
                           "%s: option %s of %s is %r, not %r", what, other, cls, plugin[other],
                           model.opts.get(cls, {}).get(other, 0))


def rules_text(model):
    return "".join("body USE_%s eval:%s()\nscore USE_%s 0.1\n" % (e, e, e) for e in vhrec.EVALS)


def go(case, obs, d, model, rng):
    ctxt, numbers, rs = None, {}, None
    if case["how"] == "library":
        # directly on a context, the state is looked at after every step
        parser = oa.rules.parser.PADParser()
        ctxt = parser.ctxt
        for line in case["lines"]:
            what = "after %r" % (line,)
            if line[0] == "load":
                label = line[1]
                want = model.load(label)
                model.opts[label.split(".")[1]] = {}
                ctxt.load_plugin(*spelled(label, d))
                got = taken()
                numbers[label] = got[-1][1] if got else None
            elif line[0] == "unload":
                want = []
                if line[1] in model.plugins:
                    model.unload(line[1])
                    ctxt.unload_plugin(line[1])
                    obs.count("unloads")
                else:
                    try:
                        ctxt.unload_plugin(line[1])
                        obs.violation("unload", "a plugin that is not loaded was unloaded")
                    except oa.errors.PluginLoadError:
                        pass
                got = taken()
            else:
                want = model.option(line[1])
                for label, _, key in want[-1:]:
                    if key in case["specs"][label][2]:
                        model.opts[label.split(".")[1]][key] = line[2]
                ctxt.hook_parse_config(line[1], str(line[2]))
                got = taken()
            if not compare(obs, got, want, "load-log", what):
                return
            registered(obs, ctxt, model, numbers, what)
        rules = os.path.join(d, "r.cf")
        oah.write(rules, rules_text(model))
        parser.parse_file(rules)
        compare(obs, taken(), [], "load-log", "parsing rules")
        rs = parser.get_ruleset()
    else:
        text = ""
        want = []
        for line in case["lines"]:
            if line[0] == "load":
                name, path = spelled(line[1], d)
                text += "loadplugin %s%s\n" % (name, " " + path if path else "")
                want += model.load(line[1])
            else:
                text += "%s %d\n" % (line[1], line[2])
                want += model.option(line[1])
        conf = os.path.join(d, "conf")
        oah.write(os.path.join(conf, "a.cf"), text + rules_text(model) + "report _SCORE_\n")
        want += model.chain("parsing_start") + model.chain("parsing_end")
    if case["how"] == "library":
        compare(obs, taken(), model.chain("parsing_start") + model.chain("parsing_end"), "load-log", "get_ruleset")
        obs.expect(set(rs.checked) == set("USE_" + e for e in model.evals), "rules",
                   "the rules are %s, registered are %s", sorted(rs.checked), sorted(model.evals))
        for ev in case["events"]:
            one(case, obs, model, ev, rs)
    elif case["how"] == "daemon":
        srv = daemon.InProc(conf)
        try:
            compare(obs, taken(), want, "load-log", "the daemon's start")
            for ev in case["events"]:
                remote(case, obs, model, ev, srv)
        finally:
            srv.close()
    else:
        for ev in case["events"][:4]:
            tool(case, obs, model, ev, conf, want, d, rng)


def scanned(model, ident, parts, rest=True):
    want = model.chain("check_start", ident)
    for _ in range(parts):
        want += model.chain("extract_metadata", ident)
    want += model.chain("parsed_metadata", ident)
    if rest:
        want += [(model.evals[e], "eval", e) for e in vhrec.EVALS if e in model.evals]
        want += model.chain("check_end", ident) + model.chain("auto_learn", ident)
    return want


def normal(got):
    """Messages numbered in the order they appear."""
    seen, raws, out = {}, [], []
    for l, n, h, x in got:
        raw = None
        if h in ("report", "revoke"):
            x, raw = x
            raws.append(raw)
        if h in SCAN or h in ("report", "revoke"):
            x = seen.setdefault(x, "msg%d" % len(seen))
        out.append((l, n, h, x))
    return out, raws


def message(ev):
    parts, text = SHAPES[ev["shape"]]
    return parts, text % (ev["text"].encode("ascii", "ignore").decode(), ev["text"])


def one(case, obs, model, ev, rs):
    parts, raw = message(ev)
    msg = oa.message.Message(rs.ctxt, raw)
    got, _ = normal(taken())
    compare(obs, got, scanned(model, "msg0", parts, False), "message-log", "reading a message")
    obs.count("library:" + ev["what"])
    if ev["what"] == "scan":
        rs.match(msg)
        want = [(model.evals[e], "eval", e) for e in vhrec.EVALS if e in model.evals]
        want += model.chain("check_end", "msg0") + model.chain("auto_learn", "msg0")
    else:
        stopped = getattr(rs.ctxt, "hook_" + ev["what"])(msg)
        want = model.chain(ev["what"], "msg0")
        obs.expect(bool(stopped) == any(model.behave.get((l, ev["what"])) == "inhibit" for l in model.plugins.values()),
                   "inhibited", "hook_%s returned %r", ev["what"], stopped)
    got, raws = normal(taken())
    compare(obs, got, want, ev["what"] + "-log", "%s in process" % ev["what"])
    for r in raws:
        obs.expect(r == raw, "message", "%s got another message %r", ev["what"], r[:80])


def remote(case, obs, model, ev, srv):
    parts, raw = message(ev)
    headers, want = [], scanned(model, "msg0", parts, False)
    if ev["what"] == "tell":
        if ev["class"]:
            headers.append("Message-class: " + ev["class"])
        if ev["set"]:
            headers.append("Set: " + ev["set"])
            want += model.chain("report", "msg0")
        if ev["remove"]:
            headers.append("Remove: " + ev["remove"])
            want += model.chain("revoke", "msg0")
        cmd = "TELL"
        if case["seed"] % 2:
            headers.reverse()
    else:
        cmd = {"scan": "SYMBOLS", "report": "PROCESS", "revoke": "CHECK"}[ev["what"]]
        want = scanned(model, "msg0", parts)
    del srv.errors[:]
    resp = srv.request(daemon.req(cmd, raw, headers))
    obs.count("daemon:" + cmd)
    if not obs.expect(re.match(rb"SPAMD/\S+ 0 EX_OK\r\n", resp) and not srv.errors, "failed", "%s %s was answered %r (%r)",
                      cmd, headers, resp[:200], srv.errors[:1]):
        return
    got, raws = normal(taken())
    compare(obs, got, want, cmd.lower() + "-log", "%s %s" % (cmd, headers))
    for r in raws:
        obs.expect(r == raw, "message", "TELL handed on another message %r", r[:80])
    if cmd == "TELL":
        obs.seen("tells", tuple(sorted(headers)))
        head = resp.partition(b"\r\n")[2].decode("latin-1")
        did = re.findall(r"(?m)^(Did\w+): (.*?)\r?$", head)
        expected = [(k, ev[v]) for k, v in (("DidSet", "set"), ("DidRemove", "remove")) if ev[v]]
        obs.expect(did == expected, "didset", "TELL %s was answered %r, not %r", headers, did, expected)


def tool(case, obs, model, ev, conf, loads, d, rng):
    """The command line tool, on files and directories."""
    box = os.path.join(d, "box")
    files, args = [], []
    for n in range(rng.choice([1, 2, 3])):
        parts, raw = message(dict(ev, text=ev["text"] + str(n), shape=rng.choice(list(SHAPES))))
        data = raw.encode("utf-8") if rng.random() < .7 else raw.encode("latin-1")
        where = os.path.join(box, "dir" if n and rng.random() < .6 else "", "m%d" % n)
        oah.write(where, data)
        files.append((where, parts, data.decode("utf-8", "ignore")))
    # a directory stands for the files in it
    order = []
    for where, parts, text in files:
        if os.path.dirname(where) == box:
            args.append(where)
            order.append((where, parts, text))
    inside = os.path.join(box, "dir")
    if os.path.isdir(inside):
        args.append(inside)
        for name in os.listdir(inside):
            order.extend(f for f in files if f[0] == os.path.join(inside, name))
    flag = {"scan": [rng.choice(["-t", "-R"])], "report": [rng.choice(["-r", "--report"])],
            "revoke": [rng.choice(["-k", "--revoke"])]}[ev["what"]]
    out, argv = io.StringIO(), sys.argv
    stdout, logger = sys.stdout, oa.config.setup_logging
    sys.argv = ["match.py", "-C", conf, "-S", conf, "-p", os.path.join(d, "noprefs")] + flag + args
    sys.stdout = out
    oa.config.setup_logging = lambda *a, **k: oah._log
    try:
        match_tool.main()
    finally:
        sys.argv, sys.stdout, oa.config.setup_logging = argv, stdout, logger
        for f in files:
            os.remove(f[0])
        if os.path.isdir(inside):
            os.rmdir(inside)
    want = list(loads)
    for n, (where, parts, text) in enumerate(order):
        ident = "msg%d" % n
        want += scanned(model, ident, parts, ev["what"] == "scan")
        if ev["what"] != "scan":
            want += model.chain(ev["what"], ident)
    # (a message object may be in the place of one that is gone)
    got, raws = taken(), []
    for k, (l, n, h, x) in enumerate(got):
        if h in ("report", "revoke"):
            raws.append(x[1])
            got[k] = (l, n, h, None)
        elif h in SCAN:
            got[k] = (l, n, h, None)
    want = [(l, h, None if h in SCAN or h in ("report", "revoke") else x) for l, h, x in want]
    obs.count("tool:" + ev["what"])
    obs.count("tool_messages", len(order))
    compare(obs, got, want, "tool-%s-log" % ev["what"], "match.py %s" % flag)
    if ev["what"] != "scan":
        per = len(model.chain(ev["what"]))
        obs.expect(raws == [t for _, _, t in order for _ in range(per)], "message", "match.py %s handed on %r", flag,
                   [r[:60] for r in raws])
        obs.expect(out.getvalue().splitlines()[-1:] == ["%d message(s) examined" % len(order)], "examined",
                   "match.py %s of %d messages says %r", flag, len(order), out.getvalue()[-100:])


def init(shard):
    world.install()


if __name__ == "__main__":
    core.main("C19", gen, run, (1600, 40000),
              "1-7 loads, redefinitions, unloads and options of recording plugins (modules and paths) with random "
              "registrations, inhibitions and failures at any hook; scans, reports, revokes and TELL requests in "
              "process, through the daemon and through match.py; a case is one configuration with its events",
              require={"events": 40000, "registry_checks": 1500, "unloads": 80, "daemon:TELL": 800,
                       "tool:report": 100, "tool:revoke": 100, "library:report": 300, "library:revoke": 300,
                       "library:scan": 300, "tells": 60},
              init=init, budget=(200, 800))
