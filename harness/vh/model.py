"""Small independent reference models shared by checks."""


def effective_score(name, scores, tflags=(), use_bayes=True, use_network=True,
                    autolearn=False, user_config=True):
    """Documented effective score of a rule; scores is None or a list of 1 or 4 floats."""
    tflags = tflags or ()
    if name.startswith("__"):
        return 0.0
    if ("net" in tflags and not use_network) or \
            ("noautolearn" in tflags and autolearn) or \
            ("learn" in tflags and not use_bayes) or \
            ("userconf" in tflags and not user_config):
        return 0.0
    if scores is None:
        return -1.0 if "nice" in tflags else 1.0
    if len(scores) == 1:
        return scores[0]
    return scores[(2 if use_bayes else 0) + (1 if use_network else 0)]
