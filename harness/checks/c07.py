"""C07: configuration grammar against a reference interpreter; bad lines stay local."""
import locale
import os
import oa.config
import oa.errors
import oa.plugins
import oa.plugins.base
import oa.rules.parser
import importlib
from vh import core, oah
import vhprobe

MSG = ("From: Al <al@example.com>\nTo: bob@example.com\nSubject: alpha tango\nX-Mark: marker\n"
       "Message-Id: <1@example.com>\nContent-Type: text/plain\n\nbeta gamma # delta\n"
       "see http://link.example/path now\n")
# type, value, hits on MSG
VALUES = [
    ("body", "/beta/", 1), ("body", "/alpha/", 1), ("body", "/zulu/", 0), ("body", r"/\# delta/", 1),
    ("body", "m{gamma}", 1), ("body", "/BETA/i", 1), ("body", "/BETA/", 0),
    ("rawbody", "/gamma/", 1), ("rawbody", "/zulu/", 0), ("full", "/X-Mark/", 1),
    ("full", "/zulu/", 0), ("header", "Subject =~ /alpha/", 1), ("header", "Subject !~ /alpha/", 0),
    ("header", "X-None =~ /a/", 0), ("header", "exists:X-Mark", 1), ("header", "exists:X-None", 0),
    ("header", "From:addr =~ /^al@example/", 1), ("uri", r"/link\.example/", 1),
    ("uri", "/zulu/", 0), ("mimeheader", "Content-Type =~ /plain/", 1),
    ("mimeheader", "Content-Type =~ /html/", 0), ("meta", "BASE_T && !BASE_F", 1),
    ("meta", "BASE_F || BASE_F", 0), ("meta", "(BASE_T + BASE_T) > 1", 1),
    ("body", "eval:probe('yes')", 1), ("header", "eval:probe('no')", 0), ("full", "eval:probe('yes')", 1),
]
OPTIONS = [
    ("required_score", "float", ["3", "7.5", "-1", "1e1"]),
    ("report_safe", "int", ["0", "1", "2"]),
    ("use_bayes", "bool", ["1", "0", "True", "False"]),
    ("report_contact", "str", ["me@example.com", "some body"]),
    ("report", "append", ["line one", "line two", "", "score is nice"]),
    ("unsafe_report", "append", ["unsafe one", "unsafe two"]),
    ("clear_report_template", "clear", [["report"]]),
    ("clear_unsafe_report_template", "clear", [["unsafe_report"]]),
    ("add_header", "append", ["all Foo some value", "spam Bar x y", "ham Baz z"]),
    ("remove_header", "append", ["all Qux", "ham Quux"]),
    ("clear_headers", "clear", [["add_header", "remove_header"]]),
    ("originating_ip_headers", "append_split", ["X-A X-B", "X-C"]),
    ("clear_originating_ip_headers", "clear", [["originating_ip_headers"]]),
    ("default_dns_timeout", "float", ["1", "2.5"]),
]
PLUGIN_OPTIONS = [
    ("vh_int", "int", ["5", "-3", "0"]), ("vh_float", "float", ["0.25", "9"]),
    ("vh_bool", "bool", ["1", "0", "True"]), ("vh_str", "str", ["x", "x y z"]),
    ("vh_list", "list", ["a,b,c", "one"]), ("vh_append", "append", ["p", "q r"]),
    ("vh_append_d", "append", ["t"]), ("vh_split", "append_split", ["u v", "w"]),
    ("vh_clear_append", "clear", [["vh_append"]]),
]
CORE_DEFAULT = {"required_score": 5.0, "report_safe": 1, "use_bayes": True, "report_contact": "",
                "report": [], "unsafe_report": [], "add_header": [], "remove_header": [],
                "originating_ip_headers": [], "default_dns_timeout": 2.0}
PLUG_DEFAULT = {"vh_int": 7, "vh_float": 1.5, "vh_bool": False, "vh_str": "dflt",
                "vh_list": ["a", "b"], "vh_append": [], "vh_append_d": ["d1", "d2"], "vh_split": []}
# bad lines: (lines, raises in paranoid mode: True, False or None = not specified)
BAD = [
    (["body {b} /(/"], True), (["body {b} /x"], True), (["body {b}"], True), (["body"], True),
    (["body {b} foo"], None), (["body {b} /a/Z"], None),
    (["body {b} /zz/", "score {b} abc"], True), (["body {b} /zz/", "score {b} 1 2"], True),
    (["body {b} /zz/", "score {b} 1 2 3 4 5"], True), (["body {b} /zz/", "score {b}"], True),
    (["header {b} Subject"], True), (["header {b} Subject =~"], True),
    (["header {b} Subject == /x/"], True), (["header {b} From:bogus =~ /x/"], True),
    (["header {b} Subject =~ /[/"], True), (["mimeheader {b} foo"], True),
    (["meta {b} (("], True), (["meta {b} UNDEFINED_X || BASE_T"], True),
    (["meta {b} {b} && BASE_T"], True), (["meta {b} BASE_T &&"], True),
    (["meta {b} {c}", "meta {c} {b}"], True),
    (["uri {b} /*/"], True), (["rawbody {b} /(?P<x/"], True), (["full {b} /a{{2,1}}/"], True),
    (["body {b} eval:nosuch_function()"], True), (["header {b} eval:probe("], None),
    (["body {b} eval:"], None), (["body {b} eval:probe(open)"], None),
    (["eval {b} nosuch()"], True), (["describe {b} there is no rule"], True),
    (["score {b} 3"], True), (["tflags {b} nice"], True), (["priority {b} 3"], True),
    (["body {b} /zz/", "priority {b} abc"], False),
    (["required_score abc"], True), (["report_safe x1"], True), (["default_dns_timeout zz"], True),
    (["vh_int 1.5"], "plugin"), (["vh_float one"], "plugin"),
    (["foo_bar baz"], None), (["foo"], None), (["   ???"], None), (["\xff\xfe\x00\x01 \x02"], None),
    (["body\x00{b} /x/"], None),
    (["loadplugin no.such.Plugin"], None), (["loadplugin NoModule"], None),
    (["loadplugin Mail::SpamAssassin::Plugin::NoSuch"], None), (["loadplugin"], None),
    (["loadplugin a.b /nonexistent/file.py"], None), (["loadplugin vhprobe.NoClass"], None),
    (["loadplugin os.path"], None), (["loadplugin vhprobe.LOG"], None),
    (["include /nonexistent/x.cf"], None), (["include"], None), (["include ."], None),
    (["lang"], True), (["lang en"], True), (["lang en describe"], None), (["lang xx foo bar baz"], None),
    (["add_header"], None), (["add_header all OnlyName"], "hdr"), (["add_header foo N v"], "hdr"),
    (["remove_header spam"], "hdr"), (["remove_header nobody Name"], "hdr"),
    (["dns_query_restriction deny"], None), (["dns_query_restriction foo bar.com"], None),
    (["dns_server bogus!"], None), (["dns_server 1.2.3.4 5"], None),
    (["trusted_networks bogus"], None), (["trusted_networks 1.2.3.4/99"], None),
    (["internal_networks !"], None), (["msa_networks 300.1.1.1"], None),
    (["trusted_networks 1.2.3.4.5."], None),
    (["required_score"], None), (["vh_int"], None), (["require_version 99.9"], False),
]
CLEARS = {"add_header": 0}


class B(object):
    """Random program builder; renders files while interpreting them with the reference model."""

    def __init__(self, rng):
        self.rng = rng
        self.files = {}          # name -> lines ; each line = (text, tag) tag None or bad id
        self.rules = {}
        self.opts = dict((k, list(v) if isinstance(v, list) else v) for k, v in CORE_DEFAULT.items())
        self.popts = dict((k, list(v) if isinstance(v, list) else v) for k, v in PLUG_DEFAULT.items())
        self.order = []
        self.early = set()
        self.loaded = set()
        self.nbad = 0
        self.bad_active = []
        self.nfiles = 0
        self.features = set()

    def fmt(self, text, seps=1):
        rng = self.rng
        if rng.random() < .3:
            parts = text.split(" ", seps)
            sep = [rng.choice([" ", "  ", "\t", " \t "]) for _ in parts]
            text = parts[0] + "".join(s + p for s, p in zip(sep, parts[1:]))
        text = rng.choice(["", "", "", " ", "\t", "    "]) + text
        text += rng.choice(["", "", "", " ", "\t", "  # comment", " # rest ignored: body X /y/"])
        return text + rng.choice(["\n", "\n", "\n", "\r\n"])


def attr(b, name, key, value):
    if name not in b.order:
        b.order.append(name)
    if "type" not in b.rules.setdefault(name, {}):
        b.early.add(name)
    b.rules[name][key] = value


def setopt(b, store, key, typ, val):
    if typ == "clear":
        for k in val:
            store[k] = []
    elif typ == "append":
        store[key].append(val)
    elif typ == "append_split":
        store[key].extend(val.split())
    elif typ == "bool":
        store[key] = val in ("1", "True")
    elif typ == "int":
        store[key] = int(val)
    elif typ == "float":
        store[key] = float(val)
    elif typ == "list":
        store[key] = val.split(",")
    else:
        store[key] = val


def block(b, out, active, depth, names, langname, incdepth):
    rng = b.rng
    for _ in range(rng.choice([1, 2, 4, 7, 10])):
        k = rng.random()
        if k < .08:
            out.append((rng.choice(["\n", "# comment\n", "  # body X /beta/\n", "#\n", "   \n", "\r\n"]), None))
        elif k < .33:
            name = rng.choice(names)
            typ, val, hit = rng.choice(VALUES)
            if "eval:" in val and "Probe" not in b.loaded:
                continue
            out.append((b.fmt("%s %s %s" % (typ, name, val), 2), None))
            if active:
                if name not in b.order:
                    b.order.append(name)
                elif "type" in b.rules.get(name, {}):
                    b.features.add("override")
                r = b.rules.setdefault(name, {})
                r["type"], r["hit"] = typ, bool(hit)
        elif k < .50:
            name = rng.choice(names)
            key, val = rng.choice([
                ("score", rng.choice(["2", "0.5", "-1", "0", "3 3 3 3", "1 2 3 4", "0 1 0 2"])),
                ("describe", rng.choice(["Some text", "Other description", "caf\xe9 latin", "100% off"])),
                ("priority", rng.choice(["5", "-5", "0", "100"])),
                ("tflags", rng.choice(["nice", "nice net", "multiple"]))])
            out.append((b.fmt("%s %s %s" % (key, name, val), 2), None))
            if active:
                attr(b, name, key, val)
        elif k < .65:
            if "VhOpts" in b.loaded and rng.random() < .5:
                key, typ, vals = rng.choice(PLUGIN_OPTIONS)
                store = b.popts
            else:
                key, typ, vals = rng.choice(OPTIONS)
                store = b.opts
            val = rng.choice(vals)
            out.append((b.fmt("%s %s" % (key, val if typ != "clear" else "")), None))
            if active:
                setopt(b, store, key, typ, val)
                b.features.add(key) if key == "clear_headers" else None
        elif k < .73:
            lang = rng.choice(["en", "fr", "de", "en_US", "en_GB"])
            on = active and bool(langname) and langname.startswith(lang)
            b.features.add("lang")
            if rng.random() < .5:
                name = rng.choice(names)
                key, val = rng.choice([("describe", "in %s" % lang), ("score", "4"), ("priority", "3")])
                out.append((b.fmt("lang %s %s %s %s" % (lang, key, name, val), 4), None))
                if on:
                    attr(b, name, key, val)
            else:
                key, typ, vals = rng.choice([o for o in OPTIONS if o[1] != "clear"])
                val = rng.choice([v for v in vals if v] or ["1"])
                out.append((b.fmt("lang %s %s %s" % (lang, key, val), 3), None))
                if on:
                    setopt(b, b.opts, key, typ, val)
        elif k < .81 and depth < 4:
            # conditional
            which = rng.choice(["Probe", "vhprobe.Probe", "VhOpts", "Nope", "no.such.Thing",
                                "Mail::SpamAssassin::Plugin::NoSuch"])
            true = active and which.split(".")[-1] in b.loaded
            out.append((rng.choice(["", "  "]) + "ifplugin %s\n" % which, None))
            b.features.add("cond%d" % min(depth, 2))
            block(b, out, true, depth + 1, names, langname, incdepth)
            if rng.random() < .5:
                out.append(("else\n", None))
                b.features.add("else")
                block(b, out, active and not true, depth + 1, names, langname, incdepth)
            out.append((rng.choice(["endif\n", "  endif\n", "endif # Probe\n"]), None))
        elif k < .89 and incdepth < 4:
            b.nfiles += 1
            sub = rng.choice(["", "", "sub/", "deep/er/"])
            fn = "%sinc%d.%s" % (sub, b.nfiles, rng.choice(["cf", "inc"]))
            cur = b.cur
            d = os.path.dirname(cur)
            full = os.path.join(d, fn) if d else fn
            b.cur = full
            lines = []
            b.features.add("include%d" % min(incdepth, 2))
            block(b, lines, active, depth + 1, names, langname, incdepth + 1)
            b.cur = cur
            b.files[full] = lines
            out.append((b.fmt("include %s" % fn), None))
            if not active:
                b.features.add("include_inactive")
        elif k < .91:
            p = rng.choice(["vhprobe.Probe", "vhopts.VhOpts"])
            out.append((b.fmt("loadplugin %s" % p), None))
            if active:
                c = p.split(".")[-1]
                if c == "VhOpts":
                    # loading starts from the defaults
                    b.popts = dict((k2, list(v) if isinstance(v, list) else v)
                                   for k2, v in PLUG_DEFAULT.items())
                b.loaded.add(c)
        else:
            lines, raises = rng.choice(BAD)
            if raises == "plugin":
                raises = True if "VhOpts" in b.loaded else None
            b.nbad += 1
            bid = b.nbad
            for l in lines:
                out.append((l.format(b="BAD%d" % bid, c="BAD%dX" % bid) + "\n", bid))
            if active:
                b.bad_active.append((bid, raises, lines[0]))
                b.features.add("bad:" + lines[-1][:22])


def gen(rng, i, tier):
    if i % 12 == 11:
        return {"kind": "order", "seed": rng.randint(0, 10 ** 9)}
    if i % 12 == 7:
        return {"kind": "bundled", "seed": rng.randint(0, 10 ** 9)}
    if i % 40 == 5:
        return {"kind": "recursion", "seed": rng.randint(0, 10 ** 9)}
    return {"kind": "program", "seed": rng.randint(0, 10 ** 9), "lang": rng.choice(
        ["en_US.utf8", "en_GB.utf8", "C", "en_US.utf8", "xx_YY.bogus"])}


LANGNAME = {"en_US.utf8": "en_US", "en_GB.utf8": "en_GB"}


def build(case):
    import random
    rng = random.Random(case["seed"])
    b = B(rng)
    names = ["%sR%d" % (rng.choice(["", "", "", "__", "T_"]), k) for k in range(rng.choice([2, 4, 8]))]
    main_files = []
    for f in range(rng.choice([1, 1, 2, 3])):
        fn = "m%d.cf" % f
        b.cur = fn
        lines = []
        if f == 0:
            if rng.random() < .8:
                lines.append(("loadplugin vhprobe.Probe\n", None))
                b.loaded.add("Probe")
            if rng.random() < .5:
                lines.append(("loadplugin vhopts.VhOpts\n", None))
                b.loaded.add("VhOpts")
            lines.append(("body BASE_T /beta/\n", None))
            lines.append(("body BASE_F /zulu/\n", None))
            for n, h in (("BASE_T", True), ("BASE_F", False)):
                b.rules[n] = {"type": "body", "hit": h}
                b.order.append(n)
        block(b, lines, True, 0, names, LANGNAME.get(case["lang"]), 0)
        if rng.random() < .15:
            # a missing endif at the end of a file only affects that file
            lines.append(("ifplugin Nope\n", None))
            lines.append(("body NEVER_%d /beta/\n" % f, None))
            b.features.add("missing_endif")
        b.files[fn] = lines
        main_files.append(fn)
    return b, main_files


def load_files(d, b, mains, keep, paranoid):
    for fn, lines in b.files.items():
        oah.write(os.path.join(d, fn), "".join(t for t, tag in lines if tag is None or keep(tag)))
    parser = oa.rules.parser.PADParser(paranoid=paranoid)
    for fn in mains:
        parser.parse_file(os.path.join(d, fn))
    return parser.get_ruleset()


def observe(rs):
    vhprobe.reset({"yes": True, "no": False})
    msg = oah.scan(rs, MSG)
    res = {"order": [n for n in msg.rules_checked if not n.startswith("BAD")],
           "hits": dict((n, bool(v)) for n, v in msg.rules_checked.items() if not n.startswith("BAD")),
           "names": sorted(n for n in list(rs.checked) + list(rs.not_checked) if not n.startswith("BAD"))}
    res["attr"] = dict((n, (rs.get_rule(n).score, rs.get_rule(n).priority, rs.get_rule(n).description,
                            sorted(rs.get_rule(n).tflags or []))) for n in res["names"])
    res["opts"] = dict((k, rs.conf[k]) for k in CORE_DEFAULT if k not in ("report", "unsafe_report"))
    res["opts"]["add_header"] = list(rs.header_mod["all"]), list(rs.header_mod["spam"]), list(rs.header_mod["ham"])
    del res["opts"]["remove_header"]
    p = rs.ctxt.plugins.get("VhOpts")
    res["popts"] = dict((k, p[k]) for k in PLUG_DEFAULT) if p else None
    res["report"] = rs.get_report(msg)
    res["unsafe"] = rs.get_unsafe_report(msg)
    res["plugins"] = sorted(rs.ctxt.plugins)
    import ipaddress
    nets = rs.ctxt.networks
    res["nets"] = [ipaddress.ip_address(str(a)) in n for n in (nets.trusted, nets.internal, nets.msa)
                   for a in ("1.2.3.4", "127.0.0.1", "0.0.0.0", "10.0.0.1", "::1", "2001:db8::1")]
    res["restricted"] = [rs.ctxt.dns.is_query_restricted(q) for q in ("bar.com", "deny", "foo", "")]
    return res, msg


def expected(b):
    """What the good lines say."""
    res = {"names": sorted(n for n, r in b.rules.items() if "type" in r)}
    o = dict(b.opts)
    mod = {"all": [], "spam": [], "ham": []}
    for v in o["add_header"]:
        s, n, t = v.split(None, 2)
        mod[s].append((False, "X-Spam-" + n, t))
    for v in o["remove_header"]:
        s, n = v.split(None, 1)
        mod[s].append((True, "X-Spam-" + n, None))
    o["add_header"] = (mod["all"], mod["spam"], mod["ham"])
    rep, uns = o.pop("report"), o.pop("unsafe_report")
    del o["remove_header"]
    res["opts"] = o
    res["popts"] = b.popts if "VhOpts" in b.loaded else None
    res["report"] = ("\n".join(rep) if "\n".join(rep) else "\n(no report template found)") + "\n"
    res["unsafe"] = ("\n".join(uns) if "\n".join(uns) else "\n(no report template found)") + "\n"
    attrs, hits = {}, {}
    for n in res["names"]:
        r = b.rules[n]
        flags = r.get("tflags", "").split()
        if n.startswith("__"):
            score = 0.0
        elif "score" in r:
            s = [float(x) for x in r["score"].split()]
            score = s[0] if len(s) == 1 else s[3 if o["use_bayes"] else 1]
        else:
            score = -1.0 if "nice" in flags else 1.0
        attrs[n] = (score, int(r.get("priority", "0")), r.get("describe", "No description available."),
                    sorted(flags))
        if score and not n.startswith("__"):
            hits[n] = r["hit"]
    res["attr"], res["hits"] = attrs, hits
    order = [n for n in b.order if n in hits]
    res["order"] = sorted(order, key=lambda n: -attrs[n][1])
    return res


def run(case, obs):
    if case["kind"] == "order":
        return run_order(case, obs)
    if case["kind"] == "recursion":
        return run_recursion(case, obs)
    if case["kind"] == "bundled":
        return run_bundled(case, obs)
    os.environ["LC_ALL"] = case["lang"]
    locale.setlocale(locale.LC_ALL, "C")
    b, mains = build(case)
    want = expected(b)
    with oah.TempDir() as d:
        try:
            rs = load_files(d, b, mains, lambda t: False, True)
        except oa.errors.ParsingError as e:
            # only rules without definition may be invalid in the good lines
            obs.expect(any("type" not in r for r in b.rules.values()), "paranoid-good",
                       "valid configuration rejected in paranoid mode: %s", e)
            rs = load_files(d, b, mains, lambda t: False, False)
        clean, _ = observe(rs)
        compare(obs, want, clean, b, "model")
        obs.count("programs")
        if b.nbad:
            try:
                rs = load_files(d, b, mains, lambda t: True, False)
            except Exception as e:
                # find the line
                for bid, raises, text in b.bad_active:
                    try:
                        load_files(d, b, mains, lambda t: t == bid, False)
                    except Exception as e2:
                        obs.violation("bad-line-aborts", "line %r aborts the load: %s: %s"
                                      % (text, type(e2).__name__, e2))
                        return
                obs.violation("bad-lines-abort", "bad lines %r abort the load: %s: %s"
                              % (b.bad_active, type(e).__name__, e))
                return
            dirty, msg = observe(rs)
            obs.count("with_bad", len(b.bad_active))
            for k in clean:
                if clean[k] != dirty[k]:
                    guilty = None
                    for bid, raises, text in b.bad_active:
                        one, _ = observe(load_files(d, b, mains, lambda t: t == bid, False))
                        if one[k] != clean[k]:
                            guilty = text
                            break
                    obs.violation("bad-line-not-local", "%s is %r with the bad line %r, %r without it"
                                  % (k, dirty[k], guilty or b.bad_active, clean[k]))
                    return
            obs.nontrivial(case["seed"])
            # each active bad line alone in paranoid mode
            if not any("type" not in r for r in b.rules.values()):
                for bid, raises, text in b.bad_active[:4]:
                    if raises is None or (raises == "hdr" and "clear_headers" in b.features):
                        continue
                    raises = bool(raises)
                    try:
                        load_files(d, b, mains, lambda t: t == bid, True)
                        got = False
                    except oa.errors.ParsingError:
                        got = True
                    except Exception as e:
                        obs.violation("paranoid-error-type", "line %r raises %s: %s in paranoid mode"
                                      % (text, type(e).__name__, e))
                        continue
                    obs.count("paranoid_checked")
                    obs.expect(got == raises, "paranoid", "line %r: raises=%s in paranoid mode", text, got)
            inactive = set(range(1, b.nbad + 1)) - set(x[0] for x in b.bad_active)
            if inactive and not any("type" not in r for r in b.rules.values()):
                obs.count("inactive_bad")
                try:
                    load_files(d, b, mains, lambda t: t in inactive, True)
                except oa.errors.ParsingError as e:
                    obs.violation("inactive-raises", "line in an ignored branch raises: %s" % e)
    for f in b.features:
        obs.seen("features", f)
        obs.count("f:" + f.split(":")[0])
    if len(want["hits"]) > 2:
        obs.nontrivial(sorted(want["hits"].items()), sorted(b.features))
    obs.sample({"files": dict((k, "".join(t for t, _ in v)[:400]) for k, v in b.files.items()),
                "hits": want["hits"]}, 2)


def compare(obs, want, got, b, what):
    for k in ("names", "attr", "hits", "opts", "popts", "report", "unsafe"):
        if want[k] != got[k]:
            w, g = want[k], got[k]
            if isinstance(w, dict) and isinstance(g, dict):
                keys = [x for x in set(w) | set(g) if w.get(x) != g.get(x)]
                w = dict((x, w.get(x)) for x in keys)
                g = dict((x, g.get(x)) for x in keys)
            obs.violation("grammar-" + k, "%s: got %r, the lines say %r" % (k, g, w))
    if not b.early:
        obs.expect(want["order"] == got["order"], "grammar-order", "evaluated %r expected %r",
                   got["order"], want["order"])


def run_order(case, obs):
    import random
    rng = random.Random(case["seed"])
    same = rng.random() < .3
    with oah.TempDir() as d:
        conf = os.path.join(d, "conf")
        site = conf if same else os.path.join(d, "site")
        layout = []

        def add(base, rank):
            for _ in range(rng.randint(0, 4)):
                ext = rng.choice([".pre", ".cf", ".cf", ".txt", ".cf.bak", ".pre~", "cf"])
                name = "%s%d%s" % (rng.choice(["a", "Z", "10_", "9_", "local"]), rng.randint(0, 20), ext)
                p = os.path.join(base, name)
                if p not in layout:
                    layout.append(p)
        os.makedirs(conf)
        add(conf, 0)
        if not same:
            os.makedirs(site)
            add(site, 1)
        prefs = None
        if rng.random() < .6:
            prefs = os.path.join(d, "prefs")
        for n, p in enumerate(layout + ([prefs] if prefs and rng.random() < .8 else [])):
            score = n + 1
            oah.write(p, "body R_ALL /beta/\nscore R_ALL %d\nbody F%d /beta/\nreport file %d\n" % (score, n, n))

        def pick(base, ext):
            return sorted(p for p in layout if os.path.dirname(p) == base and p.endswith(ext))
        want = pick(site, ".pre")
        if not same:
            want += pick(conf, ".pre") + pick(conf, ".cf")
        want += pick(site, ".cf")
        if prefs and os.path.exists(prefs):
            want.append(prefs)
        got = oa.config.get_config_files(conf, site, prefs)
        obs.expect(list(got) == want, "file-order", "files %r expected %r", got, want)
        obs.count("orders")
        parser = oa.rules.parser.parse_pad_rules(got)
        rs = parser.get_ruleset()
        idx = dict((p, n) for n, p in enumerate(layout + [prefs]))
        if want:
            obs.expect(rs.get_rule("R_ALL").score == idx[want[-1]] + 1, "file-override",
                       "score %r, the last file says %r", rs.get_rule("R_ALL").score, idx[want[-1]] + 1)
            msg = oah.scan(rs, MSG)
            names = [n for n in msg.rules_checked if n != "R_ALL"]
            obs.expect(names == ["F%d" % idx[p] for p in want], "file-rule-order",
                       "rules %r expected order of %r", names, want)
            obs.expect(rs.get_report(msg) == "\n".join("file %d" % idx[p] for p in want) + "\n",
                       "file-report-order", "report %r", rs.get_report(msg))
            obs.nontrivial(len(want), tuple(os.path.basename(p) for p in want))


PLUGINS = sorted((set(oa.plugins.REIMPLEMENTED_PLUGINS.values()) | {"oa.plugins.pdf_info.PDFInfoPlugin"})
                 - {"oa.plugins.pyzor.PyzorPlugin", "oa.plugins.dump_text.DumpText"})
# (the pyzor client library here is Python 2 only; DumpText prints the message)
HOSTILE = ["", "x", "-1", "0", "1 2 3", "((", "*", "%s %d", "a@b", "*@*", "1.2.3.4", "[::1]", "/(/", "a,b,,c",
           "'", '"', "\\", "\xe9\xff", "9" * 400, "nan", "inf", "1e999", "yes", "NAME on", "NAME", "a.b.c.d",
           "_TAG_", "<A>", "A B", "a@b c.d", "a b c d e f", "\x00", "{}", "sqlite://", "BASE_T on", "BASE_T x",
           "<", "5x", "5m", "foo://bar baz"]


def run_bundled(case, obs):
    """Lines for the options, commands and eval functions of the bundled plugins, with any value:
    the load goes on and the other rules are not affected."""
    import random
    rng = random.Random(case["seed"])
    names = rng.sample(PLUGINS, rng.choice([1, 2, 4, len(PLUGINS)]))
    lines, keys, cmds = [], [], []
    for n in names:
        mod, cls = n.rsplit(".", 1)
        c = getattr(importlib.import_module(mod), cls)
        keys.extend((c.options or {}).keys())
        cmds.extend((c.cmds or {}).keys())
        lines.append("loadplugin %s" % n)
        if not (cls.startswith("Razor") or cls.startswith("Pyzor")):
            cmds.extend("body %%s eval:%s(%%s)" % f for f in c.eval_rules)
    bad = []
    for k in range(rng.choice([1, 3, 8])):
        if cmds and rng.random() < .3:
            c = rng.choice(cmds)
            v = rng.choice(HOSTILE)
            bad.append(c % ("BAD%d" % k, v) if "%s" in c else "%s BAD%d %s" % (c, k, v))
        elif keys:
            key = rng.choice(keys)
            if key in ("shortcircuit", "replace_rules"):
                continue
            bad.append("%s %s" % (key, rng.choice(HOSTILE)))
    lines += ["body BASE_T /beta/", "header BASE_S Subject =~ /alpha/", "body BASE_F /zulu/",
              "score BASE_T 2.5"]
    pos = rng.randint(len(names), len(lines))
    text = "\n".join(lines[:pos] + bad + lines[pos:]) + "\n"
    try:
        rs, _ = oah.load(text)
    except Exception as e:
        for b in bad:
            try:
                oah.load("\n".join(lines[:pos] + [b] + lines[pos:]) + "\n")
            except Exception:
                bad = [b]
                break
        obs.violation("option-aborts:" + bad[0].split()[0], "%r aborts the load: %s: %s" % (
            bad, type(e).__name__, e))
        return
    try:
        msg = oah.scan(rs, MSG)
    except Exception as e:
        obs.violation("option-aborts-scan:" + bad[0].split()[0], "%r aborts the scan: %s: %s" % (
            bad, type(e).__name__, e))
        return
    got = [n for n in oah.hits(msg) if n.startswith("BASE")]
    obs.expect(got == ["BASE_T", "BASE_S"], "option-not-local", "%r: hits %r", bad, got)
    obs.count("bundled")
    for b in bad:
        obs.seen("bundled_options", b.split()[0])
    obs.nontrivial(tuple(bad))


def run_recursion(case, obs):
    import random
    rng = random.Random(case["seed"])
    with oah.TempDir() as d:
        depth = rng.randint(1, 10)
        for k in range(depth + 1):
            oah.write(os.path.join(d, "f%d.cf" % k), "body A%d /beta/\n%sbody Z%d /beta/\n" % (
                k, "include f%d.cf\n" % (k + 1) if k < depth else "", k))
        rs = oa.rules.parser.parse_pad_rules([os.path.join(d, "f0.cf")]).get_ruleset()
        msg = oah.scan(rs, MSG)
        want = ["A%d" % k for k in range(depth + 1)] + ["Z%d" % k for k in range(depth, -1, -1)]
        obs.expect(list(msg.rules_checked) == want, "include-splice", "%r expected %r",
                   list(msg.rules_checked), want)
        n = rng.randint(1, 3)
        for k in range(n):
            oah.write(os.path.join(d, "loop%d.cf" % k), "body L%d /beta/\ninclude loop%d.cf\n" % (k, (k + 1) % n))
        try:
            oa.rules.parser.parse_pad_rules([os.path.join(d, "loop0.cf")]).get_ruleset()
        except oa.errors.MaxRecursionDepthExceeded:
            obs.count("loops_stopped")
        except Exception as e:
            obs.violation("include-loop", "include loop of %d files: %s: %s" % (n, type(e).__name__, e))
        obs.count("recursions")
        obs.nontrivial(depth, n)


if __name__ == "__main__":
    core.main("C07", gen, run, (4000, 150000),
              "random configuration programs (definitions, attributes, overrides, options, nested "
              "ifplugin/else, includes in sub-directories, lang lines under several locales, bad "
              "lines) interpreted by a reference model; file layouts for get_config_files; include "
              "chains and loops. Non-trivial = programs with active bad lines or more than two "
              "evaluated rules",
              require={"programs": 800, "with_bad": 500, "paranoid_checked": 200, "inactive_bad": 40,
                       "orders": 80, "bundled": 80, "recursions": 20, "f:override": 100, "f:lang": 200, "f:else": 100,
                       "f:cond1": 50, "f:include1": 50, "f:missing_endif": 30})
