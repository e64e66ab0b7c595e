"""Recording plugins: every hook, rule, option and construction leaves an event in LOG.

vhrec_a and vhrec_b (below, as classes built from SPECS) define plugins of the same class names with
different registrations; SOURCE is the text of the same thing for a plugin of a path.
"""
import sys
import types

import oa.errors
import oa.plugins.base
import oa.rules.body

LOG = []
BEHAVE = {}       # (label, hook) -> "inhibit" | "raise"
COUNT = [0]

EVALS = ["e%d" % i for i in range(6)]
CMDS = ["cmd%d" % i for i in range(3)]
OPTS = ["rec_opt%d" % i for i in range(4)]


def reset(behave=()):
    del LOG[:]
    BEHAVE.clear()
    BEHAVE.update(dict(behave))


def act(self, hook, detail=None):
    LOG.append((self.label, self.number, hook, detail))
    what = BEHAVE.get((self.label, hook))
    if what == "inhibit":
        self.inhibit_further_callbacks()
    elif what == "raise":
        raise RuntimeError("scripted failure of %s in %s" % (hook, self.label))


class Rec(oa.plugins.base.BasePlugin):
    label = "?"

    def __init__(self, ctxt):
        COUNT[0] += 1
        self.number = COUNT[0]
        LOG.append((self.label, self.number, "init", None))
        super(Rec, self).__init__(ctxt)

    def finish_parsing_start(self, results):
        super(Rec, self).finish_parsing_start(results)
        act(self, "parsing_start")

    def finish_parsing_end(self, ruleset):
        super(Rec, self).finish_parsing_end(ruleset)
        act(self, "parsing_end")

    def parse_config(self, key, value):
        LOG.append((self.label, self.number, "parse_config", key))
        super(Rec, self).parse_config(key, value)

    def check_start(self, msg):
        act(self, "check_start", id(msg))

    def extract_metadata(self, msg, payload, text, part):
        act(self, "extract_metadata", id(msg))

    def parsed_metadata(self, msg):
        act(self, "parsed_metadata", id(msg))

    def check_end(self, ruleset, msg):
        act(self, "check_end", id(msg))

    def auto_learn_discriminator(self, ruleset, msg):
        act(self, "auto_learn", id(msg))

    def plugin_report(self, msg):
        act(self, "report", (id(msg), msg.raw_msg))

    def plugin_revoke(self, msg):
        act(self, "revoke", (id(msg), msg.raw_msg))


def evaluator(name):
    def rule(self, msg, target=None):
        LOG.append((self.label, self.number, "eval", name))
        return True
    rule.__name__ = name
    return rule


def build(name, label, evals, cmds, opts):
    body = {"label": label, "eval_rules": tuple(evals), "options": dict((o, ("int", 0)) for o in opts) or None}
    for e in evals:
        body[e] = evaluator(e)
    if cmds:
        body["cmds"] = dict((c, type("Cmd_" + label.replace(".", "_"), (oa.rules.body.BodyRule,), {"owner": label}))
                            for c in cmds)
    return type(name, (Rec,), body)


def module(name, specs):
    """A module of such plugins that importlib finds; specs: {class: (evals, cmds, opts)}"""
    mod = types.ModuleType(name)
    for cls, (evals, cmds, opts) in specs.items():
        setattr(mod, cls, build(cls, "%s.%s" % (name, cls), evals, cmds, opts))
    sys.modules[name] = mod


SOURCE = """import vhrec
%s = vhrec.build(%r, %r, %r, %r, %r)
"""
