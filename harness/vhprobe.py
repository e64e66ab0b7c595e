"""Probe plugin: records what the engine really evaluates and lets a case script results."""
import oa.plugins.base

LOG = []          # (event, detail...)
TRUTH = {}        # name -> value returned, or callable(msg)


def reset(truth=None):
    del LOG[:]
    TRUTH.clear()
    if truth:
        TRUTH.update(truth)


class Probe(oa.plugins.base.BasePlugin):
    eval_rules = ("probe", "probe_raise")

    def probe(self, msg, name, target=None):
        LOG.append(("eval", name))
        value = TRUTH.get(name, False)
        if callable(value):
            value = value(msg)
        return value

    def probe_raise(self, msg, name, target=None):
        LOG.append(("eval", name))
        raise RuntimeError("scripted failure")

    def check_start(self, msg):
        LOG.append(("check_start", id(msg)))

    def check_end(self, ruleset, msg):
        LOG.append(("check_end", id(msg)))

    def auto_learn_discriminator(self, ruleset, msg):
        LOG.append(("auto_learn", id(msg)))


FAULTS = {}       # hook name -> callable(*args) that may raise


class Fault(oa.plugins.base.BasePlugin):
    """A plugin whose hooks and rules do what FAULTS says."""
    eval_rules = ("fault",)

    def fault(self, msg, name, target=None):
        LOG.append(("fault", name))
        f = FAULTS.get("eval")
        return f(name) if f else False

    def _do(self, hook, *args):
        LOG.append((hook, id(self)))
        f = FAULTS.get(hook)
        if f:
            f(*args)

    def check_start(self, msg):
        self._do("check_start", msg)

    def extract_metadata(self, msg, payload, text, part):
        self._do("extract_metadata", payload)

    def parsed_metadata(self, msg):
        self._do("parsed_metadata", msg)

    def check_end(self, ruleset, msg):
        self._do("check_end", msg)

    def auto_learn_discriminator(self, ruleset, msg):
        self._do("auto_learn", msg)


class Worker(oa.plugins.base.BasePlugin):
    """_WORKERPID_ names the process that scanned the message."""

    def check_start(self, msg):
        import os
        msg.plugin_tags["WORKERPID"] = "<%d>" % os.getpid()
