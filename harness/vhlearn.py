"""A learner that records what it is given."""
import oa.plugins.base

LEARNED = []


class BayesPlugin(oa.plugins.base.BasePlugin):
    options = {"use_bayes": ("bool", True)}

    def plugin_report(self, msg):
        LEARNED.append(("spam", id(msg), msg.score))

    def plugin_revoke(self, msg):
        LEARNED.append(("ham", id(msg), msg.score))
