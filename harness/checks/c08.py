"""C08: options against the documented types and defaults; every load equals a fresh process."""
import importlib
import ipaddress
import json
import os
import pickle
import re
import signal
import struct
import oa.plugins
from vh import core, oah

TABLE = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "options_table.json")))
PLUGINS = sorted(set(oa.plugins.REIMPLEMENTED_PLUGINS.values()) | {"oa.plugins.pdf_info.PDFInfoPlugin"})
PLUGINS = [p for p in PLUGINS if p.split(".")[-1] not in ("PyzorPlugin", "DumpText", "TextCatPlugin")]
for _p in PLUGINS:
    importlib.import_module(_p.rsplit(".", 1)[0])
SHARED = ("util_rb_tld", "util_rb_2tld", "util_rb_3tld")     # defined by several plugins
# plugins that process an option further or parse it on their own: only compared between processes
NOT_MODELLED = ("replace_pre", "replace_inter", "replace_post", "replace_tag", "whitelist_subject",
                "blacklist_subject", "uri_detail", "report", "unsafe_report", "ok_languages",
                "inactive_languages", "skip_rbl_checks")
WORDS = {
    "freemail_domains": ["example.com mail.test", "*.free.test", "x.test"],
    "util_rb_tld": ["com net test", "org"],
    "freemail_whitelist": ["al@example.com", "zz.test"],
    "whitelist_from": ["al@example.com", "*@example.com", "no@no.test"],
    "blacklist_from": ["*@example.com", "no@no.test"], "whitelist_to": ["bob@example.com"],
    "blacklist_to": ["bob@*"], "all_spam_to": ["bob@example.com"], "more_spam_to": ["*@example.com"],
    "whitelist_from_rcvd": ["*@example.com relay.test"], "def_whitelist_from_rcvd": ["*@example.com relay.test"],
    "whitelist_subject": ["alpha", "zulu", ".*tango"], "blacklist_subject": ["alpha", "nothing"],
    "replace_tag": ["A [a4]", "O [o0]", "A (?:a|@)"], "replace_pre": ["P \\b"], "replace_post": ["Q \\b"],
    "replace_inter": ["I x?"], "replace_rules": ["TAGGED", "OTHER TAGGED"], "replace_start": ["<", "{"],
    "replace_end": [">", "}"], "shortcircuit": ["SC_RULE spam", "SC_RULE off", "BASE_T ham", "NONE on"],
    "shortcircuit_spam_score": ["50"], "bayes_auto_learn_threshold_spam": ["6", "20"],
    "trusted_networks": ["10.0.0.0/8", "!10.1.0.0/16 10.", "192.0.2.1", "2001:db8::/32"],
    "internal_networks": ["10.1.0.0/16", "192.0.2.0/24"], "msa_networks": ["192.0.2.7"],
    "add_header": ["all Info score _SCORE_ of _REQD_", "spam Flag YES", "ham Flag NO", "all Tests _TESTS_"],
    "remove_header": ["all X", "ham Old"], "report": ["line _SCORE_", "plain line", "tests: _TESTS_"],
    "unsafe_report": ["unsafe _YESNO_"], "dns_query_restriction": ["deny example.com", "allow a.example.com", "deny test"],
    "dns_server": ["192.0.2.53", "[2001:db8::1]:53"], "dns_available": ["yes", "no"],
    "envelope_sender_header": ["X-Env", "Return-Path"], "dns_options": ["norotate"],
    "originating_ip_headers": ["X-Orig", "X-Orig2 X-Orig3"], "ok_locales": ["en", "all", "ja ru"],
    "enlist_uri_host": ["(L) example.com"], "blacklist_uri_host": ["link.example"], "whitelist_uri_host": ["link.example"],
    "bayes_sql_dsn": ["sqlite://"], "bayes_ignore_from": ["a@b.test"], "user_awl_dsn": [""],
    "geodb": ["nofile.dat"], "geodb-ipv6": ["nofile6.dat"], "dns_test_interval": ["60"],
    "adsp_override": ["example.com unknown"], "report_contact": ["postmaster at example", "x@y.test"],
}
GENERIC = {"int": ["0", "1", "2", "-4", "17"], "float": ["0", "1.5", "-2", "7", "1e1"],
           "bool": ["1", "0", "True", "False", "true", "TRUE", "false", "FALSE"],
           "str": ["abc", "a b", "1"], "list": ["a,b", "one", "a, b ,c"], "append": ["x", "y z"],
           "append_split": ["u v", "w", "u  v\tw"], "timevalue": ["5", "2m", "1.5h", "1d", "1w", "30s"]}
JUNK = {"int": ["abc", "1.5", "0x10"], "float": ["abc", "1,5"], "timevalue": ["-5", "5y", "abc"]}
EVALS = ["check_subject_in_whitelist()", "check_subject_in_blacklist()", "check_freemail_from()",
         "check_freemail_replyto()", "check_from_in_whitelist()", "check_from_in_blacklist()",
         "check_to_in_whitelist()", "check_to_in_blacklist()", "check_to_in_all_spam()",
         "check_to_in_more_spam()", "check_from_in_default_whitelist()", "check_uri_host_in_blacklist()",
         "check_uri_host_in_whitelist()", "check_for_spf_whitelist_from()", "check_all_trusted()",
         "check_no_relays()", "check_freemail_body()", "check_for_dkim_whitelist_from()",
         "check_for_faraway_charset_in_headers()", "check_for_def_spf_whitelist_from()",
         "image_count('all',1,2)", "check_for_missing_to_header()", "subject_is_all_caps()",
         "check_for_def_dkim_whitelist_from()", "check_freemail_header('From')"]
MSGS = [
    "Received: from relay.test (relay.test [192.0.2.9]) by mx.example.com with SMTP id 1; Mon, 1 Jan 2018 10:00:00 +0000\n"
    "Received: from other.test (other.test [10.1.2.3]) by relay.test with SMTP id 2; Mon, 1 Jan 2018 09:59:00 +0000\n"
    "From: Al <al@example.com>\nReply-To: xx@mail.test\nTo: bob@example.com\nSubject: alpha tango\n"
    "Date: Mon, 1 Jan 2018 10:00:00 +0000\nMessage-Id: <1@example.com>\nX-Spam-Old: 1\n"
    "Content-Type: text/plain\n\nbeta t4go write to me@mail.test\nhttp://link.example/path\n",
    "From: no@no.test\nTo: bob@other.test\nSubject: zulu\nDate: Mon, 1 Jan 2018 10:00:00 +0000\n"
    "Message-Id: <2@example.com>\n\ngamma\n",
]


def option_lines(rng, plugins, n):
    pool = [("PADConf", k) for k in TABLE["PADConf"]]
    if plugins == ["oa.plugins.whitelist_subject.WhiteListSubjectPlugin"]:
        pool = []
    for p in plugins:
        if p in TABLE:
            if p.endswith("WhiteListSubjectPlugin") and len(plugins) > 1:
                continue            # the options of this one are checked on their own
            pool += [(p, k) for k in TABLE[p]] * (1 if len(plugins) > 4 else 3)
    out = []
    for _ in range(n):
        p, k = rng.choice(pool)
        typ = TABLE[p][k][0]
        if typ == "clear":
            out.append([p, k, typ, ""])
            continue
        if typ in JUNK and rng.random() < .15:
            out.append([p, k, typ, rng.choice(JUNK[typ])])
            continue
        out.append([p, k, typ, rng.choice(WORDS.get(k) or GENERIC[typ])])
    return out


def gen_config(rng):
    plugins = rng.sample(PLUGINS, rng.choice([0, 1, 2, 4, 8, len(PLUGINS)]))
    if len(plugins) == 1 and plugins[0].endswith("WhiteListSubjectPlugin"):
        plugins = []
    return {"plugins": plugins, "opts": option_lines(rng, plugins, rng.choice([0, 2, 5, 10, 25])),
            "evals": rng.sample(EVALS, rng.choice([2, 6, len(EVALS)])),
            "tagged": rng.choice(["t<A>go", "<O>ne", "<P>t<A>go", "t{A}go"]),
            "reload": rng.random() < .1}


def gen(rng, i, tier):
    k = rng.choice([1, 2, 2, 3, 4])
    if i % 25 == 24:
        pl = ["oa.plugins.whitelist_subject.WhiteListSubjectPlugin"]
        configs = [{"plugins": pl, "opts": option_lines(rng, pl, rng.choice([0, 1, 2, 5])),
                    "evals": EVALS[:2], "tagged": "t<A>go", "reload": False} for _ in range(k)]
        return {"configs": configs, "history": [rng.randrange(k) for _ in range(4)] + [0], "kind": "subject",
                "scan": [True] * 5, "paranoid": [False] * 5}
    configs = [gen_config(rng) for _ in range(k)]
    hist = [rng.randrange(k) for _ in range(rng.choice([2, 3, 5, 8]))] + [0]
    return {"configs": configs, "history": hist, "scan": [rng.random() < .6 for _ in hist],
            "paranoid": [rng.random() < .1 for _ in hist]}


def text_of(cfg):
    lines = ["loadplugin %s" % p for p in cfg["plugins"]]
    lines += ["%s %s" % (o[1], o[3]) for o in cfg["opts"]]
    if cfg["reload"] and cfg["plugins"]:
        lines.append("loadplugin %s" % cfg["plugins"][0])
    lines += ["body BASE_T /beta/", "score BASE_T 3", "body BASE_F /zulu/", "body SC_RULE /t4go/",
              "body TAGGED /%s/" % cfg["tagged"], "body OTHER /<A>/",
              "header ENV EnvelopeFrom =~ /example/" if False else "header SUBJ Subject =~ /alpha/"]
    for n, e in enumerate(cfg["evals"]):
        lines.append("header EV_%s eval:%s" % (re.sub(r"\W+", "_", e).strip("_").upper(), e))
    return "\n".join(lines) + "\n"


def clean(text):
    text = re.sub(r"={5,}\d+==", "BOUNDARY", text)
    return re.sub(r"Received: from localhost by [^;]*;[^\n]*\n[^\n]*", "RCVD", text)


def snapshot(rs, scan=True):
    snap = {}
    for k in TABLE["PADConf"]:
        if TABLE["PADConf"][k][0] != "clear":
            snap["PADConf." + k] = repr(rs.conf[k])
    for name, plugin in sorted(rs.ctxt.plugins.items()):
        for k in (plugin.options or {}):
            snap["%s.%s" % (name, k)] = repr(plugin[k])
    snap["plugins"] = repr(list(rs.ctxt.plugins))
    snap["header_mod"] = repr(sorted(rs.header_mod.items()))
    nets = rs.ctxt.networks
    snap["networks"] = repr([[ipaddress.ip_address(str(a)) in n for n in (nets.trusted, nets.internal, nets.msa)]
                             for a in ("10.0.0.1", "10.1.2.3", "192.0.2.1", "192.0.2.7", "127.0.0.1",
                                       "::1", "2001:db8::5", "8.8.8.8")])
    snap["dns"] = repr([rs.ctxt.dns.is_query_restricted(q) for q in
                        ("example.com", "a.example.com", "b.a.example.com", "x.test", "org")] +
                       [rs.ctxt.dns._available, rs.ctxt.dns.lifetime, rs.ctxt.dns.timeout,
                        rs.ctxt.dns.nameservers])
    snap["skip_rbl"] = repr(rs.ctxt.skip_rbl_checks)
    for n in list(rs.checked) + list(rs.not_checked):
        r = rs.get_rule(n)
        snap["rule." + n] = repr((r.score, r.priority, r.description, r.tflags, n in rs.checked))
    snap["order"] = repr(list(rs.checked))
    if scan:
        for i, m in enumerate(MSGS):
            msg = oah.scan(rs, m)
            for n, v in msg.rules_checked.items():
                snap["hit%d.%s" % (i, n)] = repr(bool(v))
            snap["score%d" % i] = repr(round(msg.score, 6))
            for part, f in (("report", rs.get_report), ("unsafe", rs.get_unsafe_report),
                            ("message", rs.get_adjusted_message)):
                snap["%s%d" % (part, i)] = clean(f(msg))
    return snap


def child(fn):
    """Run fn in a forked child of this (never used) process and return its result."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        signal.setitimer(signal.ITIMER_REAL, 0)
        code = 1
        try:
            os.close(r)
            try:
                data = pickle.dumps(("ok", fn()))
            except BaseException as e:
                import traceback
                data = pickle.dumps(("error", "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc())))
            with os.fdopen(w, "wb") as f:
                f.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data)


def history(case):
    out = []
    for step, idx in enumerate(case["history"]):
        text = text_of(case["configs"][idx])
        if case["paranoid"][step]:
            try:
                oah.load(text, paranoid=True)
            except oa.errors.PADError:
                pass
            out.append(None)
            continue
        rs, _ = oah.load(text)
        last = step == len(case["history"]) - 1
        first = snapshot(rs, scan=False)
        full = snapshot(rs) if (case["scan"][step] or last) else first
        out.append((first, full))
    return out


def expected(cfg):
    vals = {"PADConf": dict((k, json.loads(json.dumps(v[1]))) for k, v in TABLE["PADConf"].items()
                            if v[0] != "clear")}
    classes = {}
    for p in cfg["plugins"]:
        c = p.split(".")[-1]
        classes[p] = c
        if p in TABLE:
            vals[c] = dict((k, json.loads(json.dumps(v[1]))) for k, v in TABLE[p].items())
    for p, k, typ, value in cfg["opts"]:
        store = vals["PADConf" if p == "PADConf" else classes[p]]
        value = value.strip()
        if typ == "int":
            try:
                store[k] = int(value)
            except ValueError:
                pass
        elif typ == "float":
            try:
                store[k] = float(value)
            except ValueError:
                pass
        elif typ == "timevalue":
            m = re.match(r"^([0-9.]+)([smhdw]?)$", value)
            if m:
                store[k] = float(m.group(1)) * {"": 1, "s": 1, "m": 60, "h": 3600, "d": 86400,
                                                "w": 604800}[m.group(2)]
        elif typ == "bool":
            store[k] = value.lower() in ("1", "true")
        elif typ == "str":
            store[k] = value
        elif typ == "list":
            store[k] = value.split(",")
        elif typ == "append":
            store[k].append(value)
        elif typ == "append_split":
            store[k].extend(value.split())
        elif typ == "clear":
            for target in TABLE["PADConf"][k][1]:
                store[target] = []
    if cfg["reload"] and cfg["plugins"]:
        # loading a plugin again starts from its defaults
        p = cfg["plugins"][0]
        if p in TABLE:
            vals[classes[p]] = dict((k, v[1]) for k, v in TABLE[p].items())
    return vals


def run(case, obs):
    status, fresh_or = child(lambda: history(case))
    if status == "error":
        # does a fresh load abort as well?
        for idx in sorted(set(case["history"])):
            st, err = child(lambda: snapshot(oah.load(text_of(case["configs"][idx]))[0]))
            if st == "error":
                obs.violation("fresh-load-aborts", "configuration %d: %s" % (idx, err))
                return
        obs.violation("load-aborts", "history aborts: %s" % fresh_or)
        return
    hist = fresh_or
    fresh = {}
    for idx in sorted(set(case["history"])):
        cfg = case["configs"][idx]

        def one():
            rs, _ = oah.load(text_of(cfg))
            return snapshot(rs, scan=False), snapshot(rs)
        st, res = child(one)
        if st == "error":
            obs.violation("fresh-load-aborts", "configuration %d: %s" % (idx, res))
            return
        fresh[idx] = res
        # a fresh load has the documented values
        want = expected(cfg)
        for c, vals in want.items():
            for k, v in vals.items():
                if k in SHARED or k in NOT_MODELLED or "%s.%s" % (c, k) not in res[0]:
                    continue
                obs.count("options_modelled")
                obs.expect(res[0]["%s.%s" % (c, k)] == repr(v), "option:%s.%s" % (c, k),
                           "%s.%s is %s, the lines %r say %r", c, k, res[0]["%s.%s" % (c, k)],
                           [o[3] for o in cfg["opts"] if o[1] == k], v)
        obs.count("fresh_loads")
    for step, idx in enumerate(case["history"]):
        if hist[step] is None:
            continue
        for got, want in zip(hist[step], fresh[idx]):
            for k in set(got) | set(want):
                if k not in want:
                    continue        # snapshot without scan against the one with it
                if k not in got:
                    if set(k) and (k.startswith(("hit", "score", "report", "unsafe", "message"))):
                        continue
                obs.count("values_compared")
                if got.get(k) != want[k]:
                    mech = k if "." in k and not k.startswith("rule.") else "state:" + re.sub(r"\d+", "", k)
                    if k.startswith("hit"):
                        mech = "hit:" + k.split(".", 1)[1]
                    if case.get("kind") == "subject":
                        mech = "subject-lists"
                    obs.violation("leak:" + mech, "step %d of %r: %s is %s, in a fresh process %s" % (
                        step, case["history"], k, got.get(k), want[k]))
        if step:
            obs.count("loads_after_others")
    for cfg in case["configs"]:
        for o in cfg["opts"]:
            obs.seen("options_set", o[1])
    obs.nontrivial(json.dumps(case["configs"]), tuple(case["history"]))
    obs.sample({"history": case["history"], "config0": text_of(case["configs"][0])[:600]}, 2)


if __name__ == "__main__":
    core.main("C08", gen, run, (260, 2300),
              "random configurations over all documented options of the core and the bundled plugins; "
              "histories of 3-9 loads and scans in one process, each compared with a fresh (forked, "
              "unused) process and with a model of the option types; every case is distinct by "
              "configurations and history",
              require={"fresh_loads": 300, "loads_after_others": 300, "options_modelled": 3000,
                       "values_compared": 20000, "options_set": 60})
