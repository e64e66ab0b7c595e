"""Plugin with one option of every documented type, for configuration checks."""
import oa.plugins.base


class VhOpts(oa.plugins.base.BasePlugin):
    options = {
        "vh_int": ("int", 7),
        "vh_float": ("float", 1.5),
        "vh_bool": ("bool", False),
        "vh_bool_on": ("bool", True),
        "vh_str": ("str", "dflt"),
        "vh_list": ("list", ["a", "b"]),
        "vh_append": ("append", []),
        "vh_append_d": ("append", ["d1", "d2"]),
        "vh_split": ("append_split", []),
        "vh_split_d": ("append_split", ["s1"]),
        "vh_time": ("timevalue", 60),
        "vh_clear_append": ("clear", ["vh_append"]),
        "vh_clear_both": ("clear", ["vh_append", "vh_split"]),
    }
    eval_rules = ("vh_never",)

    def vh_never(self, msg, target=None):
        return False
