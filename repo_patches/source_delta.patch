From 4c5709f82e41c4ceb71d27f4ffe17ba5ea7521a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:40 +0000
Subject: [PATCH 001/138] fix: do not let appended options change the option
 defaults of the class

---
 oa/conf.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/oa/conf.py b/oa/conf.py
index f6b4daf..bb80b2a 100644
--- a/oa/conf.py
+++ b/oa/conf.py
@@ -1,5 +1,7 @@
 """Manage configuration option parsing."""
 
+import copy
+
 import oa.errors
 
 from datetime import timedelta
@@ -38,7 +40,9 @@ class Conf(object):
         self._plugin_name = self.__class__.__name__
         if self.options:
             for key, (dummy, value) in self.options.items():
-                self.set_global(key, value)
+                # The defaults belong to the class, options that append to
+                # a list must not change them.
+                self.set_global(key, copy.copy(value))
 
     def __setitem__(self, key, value):
         self.set_global(key, value)
-- 
2.43.0


From fdf9122fb4f0cb80b3f4bebae92ba6336c50504a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:00 +0000
Subject: [PATCH 002/138] fix: keep the network lists of different
 configurations apart

---
 oa/networks.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/oa/networks.py b/oa/networks.py
index 3e3f121..6707506 100644
--- a/oa/networks.py
+++ b/oa/networks.py
@@ -72,11 +72,11 @@ class MSANetworks(NetworkListBase):
 
 
 class NetworkList(object):
-    internal = InternalNetworks()
-    trusted = TrustedNetworks()
-    msa = MSANetworks()
-
     def __init__(self):
+        # Every list belongs to one configuration, see the GlobalContext.
+        self.internal = InternalNetworks()
+        self.trusted = TrustedNetworks()
+        self.msa = MSANetworks()
         self.log = logging.getLogger("oa-logger")
 
     @property
-- 
2.43.0


From 903d602f239e898a6f91adfe4a9f05314682e1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:00 +0000
Subject: [PATCH 003/138] fix: do not report the previous scan after the
 matches are cleared

---
 oa/message.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/oa/message.py b/oa/message.py
index 1ff8278..cf37807 100644
--- a/oa/message.py
+++ b/oa/message.py
@@ -170,6 +170,8 @@ class Message(oa.context.MessageContext):
     def clear_matches(self):
         """Clear any already checked rules."""
         self.rules_checked = dict()
+        self.rules_descriptions = dict()
+        self.interpolate_data = dict()
         self.score = 0
 
     @staticmethod
-- 
2.43.0


From 24f12f7ad1ea48444087c2ab094aecb66f122163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:51 +0000
Subject: [PATCH 004/138] fix: keep multi-line header values inside the header

---
 oa/rules/ruleset.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/oa/rules/ruleset.py b/oa/rules/ruleset.py
index fbf6ca5..8616378 100644
--- a/oa/rules/ruleset.py
+++ b/oa/rules/ruleset.py
@@ -177,8 +177,8 @@ class RuleSet(object):
         else:
             newmsg = self._get_bounce_message(msg)
         if self.conf["report_safe"] == 0:
-            newmsg.add_header("X-Spam-Report",
-                              self.get_matched_report(msg))
+            newmsg.add_header("X-Spam-Report", self._fold_header(
+                self.get_matched_report(msg)))
         self._adjust_headers(msg, newmsg, self.header_mod["all"])
         if spam:
             self._adjust_headers(msg, newmsg, self.header_mod["spam"])
@@ -202,7 +202,17 @@ class RuleSet(object):
             if remove:
                 del newmsg[name]
             else:
-                newmsg.add_header(name, self._interpolate(value, msg))
+                newmsg.add_header(name, self._fold_header(
+                    self._interpolate(value, msg)))
+
+    @staticmethod
+    def _fold_header(value):
+        """Fold a value with multiple lines, so that the lines after the first
+        one are still part of the header.
+        """
+        lines = value.splitlines()
+        return "\n\t".join(lines[:1] +
+                           [line for line in lines[1:] if line.strip()])
 
     def _get_bounce_message(self, msg):
         """Create a bounce message from the original."""
-- 
2.43.0


From dfb68e45317512f9c841b47cd505f22141023f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:09 +0000
Subject: [PATCH 005/138] fix: a first score of 0 does not disable the other
 three scores

---
 oa/rules/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/rules/base.py b/oa/rules/base.py
index a36bdc2..b03c309 100644
--- a/oa/rules/base.py
+++ b/oa/rules/base.py
@@ -73,7 +73,7 @@ class BaseRule(object):
                 self.score = 0
                 return
 
-        if len(self._scores) != 4 or self.score == 0:
+        if len(self._scores) != 4:
             # Nothing to do
             return
         flags = ruleset.conf["use_bayes"], ruleset.conf["use_network"]
-- 
2.43.0


From 28b92c90d8dbb4cd63a740ef88ad1de7f683f16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:09 +0000
Subject: [PATCH 006/138] fix: honour the priority of mimeheader rules

---
 oa/rules/header.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oa/rules/header.py b/oa/rules/header.py
index 38c9a94..0a0c5c1 100644
--- a/oa/rules/header.py
+++ b/oa/rules/header.py
@@ -46,7 +46,9 @@ class _PatternMimeHeaderRule(MimeHeaderRule):
     def __init__(self, name, pattern=None, header_name=None, score=None,
                  desc=None, priority=0, tflags=None):
         super(_PatternMimeHeaderRule, self).__init__(name, score=score,
-                                                     desc=desc, tflags=tflags)
+                                                     desc=desc,
+                                                     priority=priority,
+                                                     tflags=tflags)
         self._header_name = header_name
         self._pattern = pattern
 
-- 
2.43.0


From 47ff7aa23901362da37d705460ca53369b0bdac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:28 +0000
Subject: [PATCH 007/138] fix: keep the != comparison in meta rules

---
 oa/rules/meta.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/oa/rules/meta.py b/oa/rules/meta.py
index d9e85ba..2360581 100644
--- a/oa/rules/meta.py
+++ b/oa/rules/meta.py
@@ -12,9 +12,11 @@ from oa.regex import Regex
 CONVERT = (
     ("&&", " and "),
     ("||", " or "),
-    ("!", " not "),
 )
 
+# Negation, but not the "!" in the "!=" comparison.
+_NOT_P = Regex(r"!(?!=)")
+
 # Simple protection against recursion, or infinite loops with the meta rules.
 MAX_RECURSION = 10
 
@@ -49,6 +51,7 @@ class MetaRule(oa.rules.base.BaseRule):
         rule = _SUBRULE_P.sub(r"\1(msg)", self.rule)
         for operator, repl in CONVERT:
             rule = rule.replace(operator, repl)
+        rule = _NOT_P.sub(" not ", rule)
         rule_match = "match = lambda msg: %s" % rule
         # XXX we should check for potentially unsafe code or run it in
         # XXX RestrictedPython.
-- 
2.43.0


From 67f07e56a246936e6fdabc3823bc9e84301e94d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:28 +0000
Subject: [PATCH 008/138] fix: a malformed meta expression only invalidates its
 own rule

---
 oa/rules/meta.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/oa/rules/meta.py b/oa/rules/meta.py
index 2360581..f803ec1 100644
--- a/oa/rules/meta.py
+++ b/oa/rules/meta.py
@@ -55,7 +55,10 @@ class MetaRule(oa.rules.base.BaseRule):
         rule_match = "match = lambda msg: %s" % rule
         # XXX we should check for potentially unsafe code or run it in
         # XXX RestrictedPython.
-        _code_obj = compile(rule_match, "<meta>", "exec")
+        try:
+            _code_obj = compile(rule_match, "<meta>", "exec")
+        except (SyntaxError, ValueError) as e:
+            raise oa.errors.InvalidRule(self.name, "Invalid expression: %s" % e)
 
         oa.rules.base.BaseRule.postparsing(self, ruleset)
         for subrule_name in subrules:
-- 
2.43.0


From 78f8f369730df3db39db5ab9ab9c6a26b2a1ff6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:55 +0000
Subject: [PATCH 009/138] fix: strip only the opening delimiter of a regex and
 reject a missing one

---
 oa/regex.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oa/regex.py b/oa/regex.py
index f7de36b..936a245 100644
--- a/oa/regex.py
+++ b/oa/regex.py
@@ -85,6 +85,8 @@ def perl2re(pattern, match_op="=~"):
     """Convert a Perl type regex to a Python one."""
     # We don't need to consider the pre-flags
     pattern = pattern.strip().lstrip("mgs")
+    if not pattern:
+        raise oa.errors.InvalidRegex("Missing regex")
     delim = pattern[0]
     try:
         rev_delim = DELIMS[delim]
@@ -92,7 +94,7 @@ def perl2re(pattern, match_op="=~"):
         raise oa.errors.InvalidRegex("Invalid regex delimiter %r in %r" %
                                      (delim, pattern))
     try:
-        pattern, flags_str = pattern.lstrip(delim).rsplit(rev_delim, 1)
+        pattern, flags_str = pattern[1:].rsplit(rev_delim, 1)
     except ValueError:
         raise oa.errors.InvalidRegex("Invalid regex %r. Please make sure you "
                                       "have escaped all the special characters "
-- 
2.43.0


From f7a33b514ce707f7432e5455816f28ad69e036c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:32 +0000
Subject: [PATCH 010/138] fix: convert Perl groups only where the pattern
 really has one

---
 oa/regex.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/oa/regex.py b/oa/regex.py
index 936a245..f21cc13 100644
--- a/oa/regex.py
+++ b/oa/regex.py
@@ -28,32 +28,36 @@ DELIMS = {
     ";": ";",
 }
 
-# Regex substitution for Perl -> Python compatibility
+# Regex substitution for Perl -> Python compatibility. These skip the escaped
+# characters, as "\(?>" is not the start of a group.
 _CONVERTS = (
     (re.compile(r"""
     # Python does not support local extensions so remove those. For example:
     # (?i:test) becomes (?:test)
 
-        (?<=\(\?)                             # Look-behind and match (?
-        (([adlupimsx-]*?)|(\^[?^alupimsx]*?)) # Capture the extension
-        (?=:)                                 # Look-ahead and match the :
-""", re.VERBOSE), r""),
+        (\\.) |                                 # Skip escaped characters
+        (\(\?)                                  # Match (?
+        (?:([adlupimsx-]*?)|(\^[?^alupimsx]*?)) # Match the extension
+        (?=:)                                   # Look-ahead and match the :
+""", re.VERBOSE | re.DOTALL), lambda m: m.group(1) or m.group(2)),
 
     (re.compile(r"""
     # Python doesn't have support for expression such as \b?
-    # Replace it with (\b)?
+    # Replace it with (?:\b)?
 
         (\\b)        # Capture group that matches \b or \B
-        (?=\?)       # Look-ahead that matches ?
-""", re.VERBOSE | re.IGNORECASE), r"(\1)"),
+        (?=\?) |     # Look-ahead that matches ?
+        (\\.)        # Skip escaped characters
+""", re.VERBOSE | re.IGNORECASE | re.DOTALL),
+     lambda m: m.group(2) or "(?:%s)" % m.group(1)),
 
     (re.compile(r"""
     # Python doesn't have support for "independent" subexpression (?>)
     # Replace those with non capturing groups (?:)
 
-        (?<=\(\?)    # Look-behind and match (?
-        (>)          # Match >
-""", re.VERBOSE), r":"),
+        (\\.) |      # Skip escaped characters
+        \(\?>        # Match (?>
+""", re.VERBOSE | re.DOTALL), lambda m: m.group(1) or "(?:"),
 )
 
 
-- 
2.43.0


From 05c9d31652d72c7364c63664997f8a6b67072670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:32 +0000
Subject: [PATCH 011/138] fix: header rules use the operator before the
 pattern, not one inside it

---
 oa/rules/header.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/oa/rules/header.py b/oa/rules/header.py
index 0a0c5c1..a4d682f 100644
--- a/oa/rules/header.py
+++ b/oa/rules/header.py
@@ -5,6 +5,14 @@ import oa.errors
 import oa.rules.base
 
 
+def _get_match_op(value):
+    """Get the operator (=~ or !~) between the header name and the pattern, if
+    there is one. The pattern itself may contain the other one.
+    """
+    ops = [op for op in ("=~", "!~") if op in value]
+    return min(ops, key=value.index) if ops else None
+
+
 class MimeHeaderRule(oa.rules.base.BaseRule):
     """Abstract class for all MIME header rules."""
     _rule_type = "BODY: "
@@ -18,11 +26,8 @@ class MimeHeaderRule(oa.rules.base.BaseRule):
         kwargs = cls.get_rule_kwargs(data)
         value = data["value"].strip()
 
-        if "=~" in value:
-            match_op = "=~"
-        elif "!~" in value:
-            match_op = "!~"
-        else:
+        match_op = _get_match_op(value)
+        if match_op is None:
             raise oa.errors.InvalidRule(name, "Missing match operator")
 
         header_name, pattern = value.split(match_op, 1)
@@ -84,12 +89,7 @@ class HeaderRule(oa.rules.base.BaseRule):
         kwargs = cls.get_rule_kwargs(data)
         value = data["value"]
 
-        match_op = None
-        if "=~" in value:
-            match_op = "=~"
-        elif "!~" in value:
-            match_op = "!~"
-
+        match_op = _get_match_op(value)
         if match_op is not None:
             header_name, pattern = value.split(match_op, 1)
             header_name = header_name.strip()
-- 
2.43.0


From 15df36a9a32e6db7ce591fa63344acb799fd7322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:42 +0000
Subject: [PATCH 012/138] fix: exists: rules keep the whole header name

---
 oa/rules/header.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/rules/header.py b/oa/rules/header.py
index a4d682f..265a0b7 100644
--- a/oa/rules/header.py
+++ b/oa/rules/header.py
@@ -114,7 +114,7 @@ class HeaderRule(oa.rules.base.BaseRule):
                 kwargs["header_name"] = header_name.strip()
                 return _PatternHeaderRule(name, **kwargs)
         elif value.startswith("exists:"):
-            kwargs["header_name"] = value.lstrip("exists:").strip()
+            kwargs["header_name"] = value[len("exists:"):].strip()
             return _ExistsHeaderRule(name, **kwargs)
 
 
-- 
2.43.0


From b1ffd1275abc6419cecd5d9d12257b05f3dd811f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:54 +0000
Subject: [PATCH 013/138] fix: a header rule without a usable operator or
 modifier is an invalid rule

---
 oa/rules/header.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/oa/rules/header.py b/oa/rules/header.py
index 265a0b7..a95b0b2 100644
--- a/oa/rules/header.py
+++ b/oa/rules/header.py
@@ -38,6 +38,7 @@ class MimeHeaderRule(oa.rules.base.BaseRule):
             kwargs["header_name"] = header_name.strip()
             if mod == "raw":
                 return _PatternMimeRawHeaderRule(name, **kwargs)
+            raise oa.errors.InvalidRule(name, "Unknown modifier %r" % mod)
         else:
             kwargs["header_name"] = header_name.strip()
             return _PatternMimeHeaderRule(name, **kwargs)
@@ -110,12 +111,14 @@ class HeaderRule(oa.rules.base.BaseRule):
                     return _PatternAddrHeaderRule(name, **kwargs)
                 if mod == "name":
                     return _PatternNameHeaderRule(name, **kwargs)
+                raise oa.errors.InvalidRule(name, "Unknown modifier %r" % mod)
             else:
                 kwargs["header_name"] = header_name.strip()
                 return _PatternHeaderRule(name, **kwargs)
         elif value.startswith("exists:"):
             kwargs["header_name"] = value[len("exists:"):].strip()
             return _ExistsHeaderRule(name, **kwargs)
+        raise oa.errors.InvalidRule(name, "Missing match operator")
 
 
 class _ExistsHeaderRule(HeaderRule):
-- 
2.43.0


From 23174747c71fee0c43f3d08b198729b24af7c294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:05 +0000
Subject: [PATCH 014/138] fix: keep the whole name of the function of eval
 rules

---
 oa/rules/eval_.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/oa/rules/eval_.py b/oa/rules/eval_.py
index 0bba136..783e57c 100644
--- a/oa/rules/eval_.py
+++ b/oa/rules/eval_.py
@@ -79,7 +79,10 @@ class EvalRule(oa.rules.base.BaseRule):
     @staticmethod
     def get_rule_kwargs(data):
         kwargs = oa.rules.base.BaseRule.get_rule_kwargs(data)
-        kwargs["eval_rule"] = data['value'].lstrip('eval:').strip()
+        eval_rule = data['value'].strip()
+        if eval_rule.startswith("eval:"):
+            eval_rule = eval_rule[len("eval:"):].strip()
+        kwargs["eval_rule"] = eval_rule
         if "target" in data:
             kwargs["target"] = data['target']
         return kwargs
-- 
2.43.0


From 54a01b8e197f793b711dafa522e6d0e1a0e27ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:26 +0000
Subject: [PATCH 015/138] fix: commas and unknown names in eval rule arguments
 do not abort the load

---
 oa/rules/eval_.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/oa/rules/eval_.py b/oa/rules/eval_.py
index 783e57c..95de5ee 100644
--- a/oa/rules/eval_.py
+++ b/oa/rules/eval_.py
@@ -36,14 +36,13 @@ class EvalRule(oa.rules.base.BaseRule):
             eval_rule_name, eval_args = _EVAL_RULE_P.match(eval_rule).groups()
             self.eval_rule_name = eval_rule_name
             if eval_args:
-                self.eval_args = tuple(
-                        eval(arg) for arg in eval_args.split(","))
+                self.eval_args = tuple(eval("(%s,)" % eval_args))
             else:
                 self.eval_args = tuple()
         except (TypeError, ValueError, AttributeError):
             raise oa.errors.InvalidRule(self.name, "Invalid eval rule: %s" %
                                         eval_rule)
-        except SyntaxError:
+        except (SyntaxError, NameError):
             err_msg = "Invalid arguments for eval rule: %s" % eval_rule
             raise oa.errors.InvalidRule(self.name, err_msg)
 
-- 
2.43.0


From 0e5302c67b70f8dfed160d1a4c2094fafe03d8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:02 +0000
Subject: [PATCH 016/138] fix: a header that cannot be decoded is kept as it is

---
 oa/message.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/oa/message.py b/oa/message.py
index cf37807..54ccc49 100644
--- a/oa/message.py
+++ b/oa/message.py
@@ -196,13 +196,14 @@ class Message(oa.context.MessageContext):
     @staticmethod
     def _decode_header(header):
         """Decodes an email header and returns it as a string. Any  parts of
-        the header that cannot be decoded are simply ignored.
+        the header that cannot be decoded are simply ignored. If it cannot be
+        split into parts at all it is returned as it is.
         """
         parts = list()
         try:
             decoded_header = email.header.decode_header(header)
         except (ValueError, email.header.HeaderParseError):
-            return
+            return str(header)
 
         for value, encoding in decoded_header:
             if encoding:
-- 
2.43.0


From 8a50159e0882d543b3e78c6620215107e73830f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:02 +0000
Subject: [PATCH 017/138] fix: do not add the originating IP to the decoded
 Received headers

---
 oa/message.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/message.py b/oa/message.py
index 54ccc49..85e024d 100644
--- a/oa/message.py
+++ b/oa/message.py
@@ -474,7 +474,7 @@ class Message(oa.context.MessageContext):
         self.text = " ".join(body)
         self.raw_text = "\n".join(raw_body)
 
-        received_headers = self.get_decoded_header("Received")
+        received_headers = list(self.get_decoded_header("Received"))
         for header in self.ctxt.conf["originating_ip_headers"]:
             headers = ["X-ORIGINATING-IP: %s" % x
                        for x in self.get_decoded_header(header)]
-- 
2.43.0


From b30acf812873ab8e192eeb91c572736111033d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:21 +0000
Subject: [PATCH 018/138] fix: broken HTML markup does not abort the parsing of
 the message

---
 oa/message.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/message.py b/oa/message.py
index 85e024d..26b53f6 100644
--- a/oa/message.py
+++ b/oa/message.py
@@ -187,7 +187,7 @@ class Message(oa.context.MessageContext):
         stripper = _ParseHTML(data)
         try:
             stripper.feed(payload)
-        except (UnicodeDecodeError, html.parser.HTMLParseError):
+        except Exception:
             # We can't parse the HTML, so just strip it.  This is still
             # better than including generic HTML/CSS text.
             pass
-- 
2.43.0


From 49d1a8bb4b3a60eeb5ea938a8e01eb4f57a598c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:39 +0000
Subject: [PATCH 019/138] fix: keep the space before an encoded word on a
 folded line

---
 oa/message.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/oa/message.py b/oa/message.py
index 26b53f6..1311d68 100644
--- a/oa/message.py
+++ b/oa/message.py
@@ -200,6 +200,10 @@ class Message(oa.context.MessageContext):
         split into parts at all it is returned as it is.
         """
         parts = list()
+        if isinstance(header, str) and "=?" in header:
+            # The space between a folded line and an encoded word that starts
+            # the next one is lost otherwise.
+            header = re.sub(r"\n(?=[ \t])", "", header)
         try:
             decoded_header = email.header.decode_header(header)
         except (ValueError, email.header.HeaderParseError):
-- 
2.43.0


From d4ee493bf04559c71939b1dfa57b098d26052cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:38 +0000
Subject: [PATCH 020/138] fix: ALL header rules see the header names as they
 are written

---
 oa/message.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/oa/message.py b/oa/message.py
index 1311d68..14b1bd6 100644
--- a/oa/message.py
+++ b/oa/message.py
@@ -141,6 +141,8 @@ class Message(oa.context.MessageContext):
         self.msg = email.message_from_string(self.raw_msg)
         self.headers = _Headers()
         self.raw_headers = _Headers()
+        # The names of the headers as they are written in the message
+        self.header_names = _Headers()
         self.addr_headers = _Headers()
         self.name_headers = _Headers()
         self.mime_headers = _Headers()
@@ -322,8 +324,10 @@ class Message(oa.context.MessageContext):
         Yields strings like "<header_name>: <header_value>"
         """
         for header_name in self.raw_headers:
-            for value in self.get_decoded_header(header_name):
-                yield "%s: %s" % (header_name, value)
+            names = self.header_names.get(header_name, list())
+            for pos, value in enumerate(self.get_decoded_header(header_name)):
+                name = names[pos] if pos < len(names) else header_name
+                yield "%s: %s" % (name, value)
 
     def _create_plugin_tags(self, header):
         for key, value in header.items():
@@ -449,6 +453,7 @@ class Message(oa.context.MessageContext):
 
         for name, raw_value in self.msg._headers:
             self.raw_headers[name].append(raw_value)
+            self.header_names[name].append(name)
 
         # XXX This is strange, but it's what SA does.
         # The body starts with the Subject header(s)
-- 
2.43.0


From 967532d47820a3110dc7207e7324987525f444f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:38 +0000
Subject: [PATCH 021/138] fix: translate the line breaks of encoded text parts
 too

---
 oa/message.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oa/message.py b/oa/message.py
index 14b1bd6..dcb1ef1 100644
--- a/oa/message.py
+++ b/oa/message.py
@@ -525,7 +525,8 @@ class Message(oa.context.MessageContext):
                         payload = payload.decode("ascii", "ignore")
                     except UnicodeError:
                         continue
-                yield payload, part
+                # The encoded content may use any EOL style
+                yield Message.translate_line_breaks(payload), part
             else:
                 yield None, part
 
-- 
2.43.0


From 022755eafed9961c5ca393fb0bc8607aba57f72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:18 +0000
Subject: [PATCH 022/138] fix: keep the non-ASCII text of parts without
 transfer encoding

---
 oa/message.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/oa/message.py b/oa/message.py
index dcb1ef1..e4ea68e 100644
--- a/oa/message.py
+++ b/oa/message.py
@@ -501,6 +501,18 @@ class Message(oa.context.MessageContext):
         for header in self.received_headers:
             self.hostname_with_ip.append((header["rdns"], header["ip"]))
 
+    @staticmethod
+    def _is_decoded(part):
+        """Check if this part is not ASCII and has no transfer encoding. The
+        message is a string, so such a part has already been decoded with it.
+        """
+        encoding = str(part.get("Content-Transfer-Encoding", "")).strip().lower()
+        if encoding not in ("", "7bit", "8bit", "binary"):
+            return False
+        payload = part.get_payload()
+        return (isinstance(payload, str) and
+                any(ord(char) > 127 for char in payload))
+
     @staticmethod
     def _iter_parts(msg):
         """Extract and decode the text parts from the parsed email message.
@@ -519,7 +531,10 @@ class Message(oa.context.MessageContext):
                 elif charset.lower().replace("_", "-") in STRICT_CHARSETS:
                     errors = "strict"
                 try:
-                    payload = payload.decode(charset, errors)
+                    if PY3 and Message._is_decoded(part):
+                        payload = part.get_payload()
+                    else:
+                        payload = payload.decode(charset, errors)
                 except (LookupError, UnicodeError, AssertionError):
                     try:
                         payload = payload.decode("ascii", "ignore")
-- 
2.43.0


From b797a070ac5e04a936ee7ee50420a9aefd777d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:04 +0000
Subject: [PATCH 023/138] fix: find the URIs with an upper case scheme

---
 oa/message.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/message.py b/oa/message.py
index e4ea68e..fc82df5 100644
--- a/oa/message.py
+++ b/oa/message.py
@@ -47,7 +47,7 @@ URL_RE = Regex(r"""
     )
     (?:[^\s<>"'\x7f-\xff]+)  # capture the guts
 )
-""", re.VERBOSE)
+""", re.VERBOSE | re.IGNORECASE)
 
 IPFRE = Regex(r"[\[ \(]{1}[a-fA-F\d\.\:]{7,}?[\] \n;\)]{1}")
 
-- 
2.43.0


From 9f20ea61ca505c6e4e0ef9682b18b0fa484bf082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:07 +0000
Subject: [PATCH 024/138] fix: an invalid option value only affects its own
 line

---
 oa/rules/parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/oa/rules/parser.py b/oa/rules/parser.py
index 1742080..c8a02af 100644
--- a/oa/rules/parser.py
+++ b/oa/rules/parser.py
@@ -243,7 +243,11 @@ class PADParser(object):
                 self.results[name][rtype] = value
 
         else:
-            if not self.ctxt.hook_parse_config(rtype, value):
+            try:
+                known = self.ctxt.hook_parse_config(rtype, value)
+            except oa.errors.PluginError as e:
+                raise oa.errors.InvalidSyntax(filename, line_no, line, str(e))
+            if not known:
                 self.ctxt.err("%s:%s Ignoring unknown configuration line: %s",
                               filename, line_no, line)
 
-- 
2.43.0


From 9b943dc923aabe0bff1734e00d7ed87630881936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:34 +0000
Subject: [PATCH 025/138] fix: an invalid score only invalidates its own rule

---
 oa/rules/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/oa/rules/base.py b/oa/rules/base.py
index b03c309..b39e5cc 100644
--- a/oa/rules/base.py
+++ b/oa/rules/base.py
@@ -113,6 +113,8 @@ class BaseRule(object):
             kwargs["score"] = list(map(float, data["score"].strip().split()))
         except KeyError:
             pass
+        except ValueError as e:
+            raise oa.errors.InvalidRule(None, "Invalid score: %s" % e)
         try:
             kwargs["desc"] = data["describe"].strip()
         except KeyError:
-- 
2.43.0


From 56122a04b996fdf1457cbf191eec8df4cc75052e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:34 +0000
Subject: [PATCH 026/138] fix: too large repetitions in a pattern only
 invalidate its own rule

---
 oa/regex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/regex.py b/oa/regex.py
index f21cc13..f894044 100644
--- a/oa/regex.py
+++ b/oa/regex.py
@@ -113,7 +113,7 @@ def perl2re(pattern, match_op="=~"):
         if match_op == "=~":
             return MatchPattern(re.compile(pattern, flags))
         elif match_op == "!~": return NotMatchPattern(re.compile(pattern, flags))
-    except re.error as e:
+    except (re.error, OverflowError) as e:
         raise oa.errors.InvalidRegex("Invalid regex %r: %s" % (pattern, e))
 
 
-- 
2.43.0


From 9b264af40ab6993d9de9657c3d01a044a50d14ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:34 +0000
Subject: [PATCH 027/138] fix: ignore the conditionals inside of an ignored
 ifplugin branch

---
 oa/rules/parser.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/oa/rules/parser.py b/oa/rules/parser.py
index c8a02af..4d03e99 100644
--- a/oa/rules/parser.py
+++ b/oa/rules/parser.py
@@ -106,6 +106,8 @@ class PADParser(object):
         self.results = collections.OrderedDict()
         self.ruleset = oa.rules.ruleset.RuleSet(self.ctxt)
         self._ignore = False
+        # How many conditionals were started while ignoring lines
+        self._ignored_ifs = 0
 
     @contextlib.contextmanager
     def _paranoid(self, *exceptions):
@@ -147,11 +149,20 @@ class PADParser(object):
         #     self._ignore = True
         #     return
 
+        if self._ignore and line.startswith("if"):
+            self._ignored_ifs += 1
+            return
+
         if line.startswith("endif"):
-            self._ignore = False
+            if self._ignored_ifs:
+                self._ignored_ifs -= 1
+            else:
+                self._ignore = False
             return
 
         if line.startswith("else"):
+            if self._ignored_ifs:
+                return
             if self._ignore:
                 self._ignore = False
             else:
-- 
2.43.0


From 14a0e469ce94d33a5e8b1683eb2215758950d270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:34 +0000
Subject: [PATCH 028/138] fix: a missing endif only affects the file that
 misses it

---
 oa/rules/parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/oa/rules/parser.py b/oa/rules/parser.py
index 4d03e99..7078afa 100644
--- a/oa/rules/parser.py
+++ b/oa/rules/parser.py
@@ -135,6 +135,9 @@ class PADParser(object):
                 except oa.errors.PluginLoadError as e:
                     warnings.warn(str(e))
                     self.ctxt.log.warn("%s", e)
+        # A missing endif must not affect other files
+        self._ignore = False
+        self._ignored_ifs = 0
 
     def _handle_line(self, filename, line, line_no, _depth=0):
         """Handles a single line."""
-- 
2.43.0


From 440cf4b8ef3f6a4efc94438b3da622be9fbd79e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:35 +0000
Subject: [PATCH 029/138] fix: lang applies to any kind of line and does not
 need a known locale

---
 oa/rules/parser.py | 39 ++++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/oa/rules/parser.py b/oa/rules/parser.py
index 7078afa..a7372e8 100644
--- a/oa/rules/parser.py
+++ b/oa/rules/parser.py
@@ -205,28 +205,26 @@ class PADParser(object):
             except ValueError:
                 raise oa.errors.InvalidSyntax(filename, line_no, line,
                                               "Missing argument")
-            if rtype == "tflags":
-                value = value.split()
-
             if rtype == "lang":
-                locale.setlocale(locale.LC_ALL, '')
+                try:
+                    locale.setlocale(locale.LC_ALL, '')
+                except locale.Error as e:
+                    self.ctxt.log.debug("Unsupported locale: %s", e)
                 locale_language = locale.getlocale(locale.LC_MESSAGES)[0]
-                if not locale_language.startswith(name):
+                if not (locale_language or "").startswith(name):
                     self.ctxt.log.debug("Lang argument does not"
                                         "correspond with locales")
                     return
 
-                if "report" in value:
+                rtype = value.split(None, 1)[0]
+                if rtype not in KNOWN_2_RTYPE and rtype not in self.ctxt.cmds:
                     try:
                         rtype, value = value.split(None, 1)
                     except ValueError:
                         raise oa.errors.InvalidSyntax(filename, line_no, line,
                                                       "Missing argument")
 
-                    if not self.ctxt.hook_parse_config(rtype, value):
-                        self.ctxt.err("%s:%s Ignoring unknown"
-                                      "configuration line: %s",
-                                      filename, line_no, line)
+                    self._handle_option(filename, line, line_no, rtype, value)
                     return
 
                 try:
@@ -235,6 +233,9 @@ class PADParser(object):
                     raise oa.errors.InvalidSyntax(filename, line_no, line,
                                                   "Missing argument")
 
+            if rtype == "tflags":
+                value = value.split()
+
             if name not in self.results:
                 self.results[name] = dict()
 
@@ -257,13 +258,17 @@ class PADParser(object):
                 self.results[name][rtype] = value
 
         else:
-            try:
-                known = self.ctxt.hook_parse_config(rtype, value)
-            except oa.errors.PluginError as e:
-                raise oa.errors.InvalidSyntax(filename, line_no, line, str(e))
-            if not known:
-                self.ctxt.err("%s:%s Ignoring unknown configuration line: %s",
-                              filename, line_no, line)
+            self._handle_option(filename, line, line_no, rtype, value)
+
+    def _handle_option(self, filename, line, line_no, rtype, value):
+        """Handles the options of OrangeAssassin and of the plugins."""
+        try:
+            known = self.ctxt.hook_parse_config(rtype, value)
+        except oa.errors.PluginError as e:
+            raise oa.errors.InvalidSyntax(filename, line_no, line, str(e))
+        if not known:
+            self.ctxt.err("%s:%s Ignoring unknown configuration line: %s",
+                          filename, line_no, line)
 
     def _handle_include(self, value, line, line_no, _depth=0,
                         dirname=None):
-- 
2.43.0


From 47b7300f553f5d1f7d84855afea2810f1c6bf282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:55 +0000
Subject: [PATCH 030/138] fix: a plugin that cannot be loaded only affects its
 own line

---
 oa/context.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/oa/context.py b/oa/context.py
index 1f53d5f..d17bc0d 100644
--- a/oa/context.py
+++ b/oa/context.py
@@ -176,7 +176,11 @@ class GlobalContext(_Context):
 
         if path is None:
             # The plugin should be sys.path already
-            module_name, class_name = name.rsplit(".", 1)
+            try:
+                module_name, class_name = name.rsplit(".", 1)
+            except ValueError:
+                raise oa.errors.PluginLoadError("Missing module name in %s" %
+                                                name)
             try:
                 module = importlib.import_module(module_name)
             except ImportError as e:
@@ -184,12 +188,16 @@ class GlobalContext(_Context):
                                                 (module_name, e))
         elif sys.version_info[0] == 3 and sys.version_info[1] > 2:
             # For Python 3.3+
-            module = self._load_module_py3(path)
+            try:
+                module = self._load_module_py3(path)
+            except (IOError, ImportError, SyntaxError) as e:
+                raise oa.errors.PluginLoadError("Unable to load %s: %s" %
+                                                (path, e))
         else:
             # For Python 2 and < 3.3
             module = self._load_module_py2(path)
 
-        plugin_class = getattr(module, class_name)
+        plugin_class = getattr(module, class_name, None)
         if plugin_class is None:
             raise oa.errors.PluginLoadError("Missing plugin %s in %s" %
                                             (class_name, path))
-- 
2.43.0


From 18878b76edd7c399975792de7b681142704382dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:08 +0000
Subject: [PATCH 031/138] fix: an invalid add_header, remove_header or DNS
 restriction does not abort the load

---
 oa/rules/ruleset.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/oa/rules/ruleset.py b/oa/rules/ruleset.py
index 8616378..b377761 100644
--- a/oa/rules/ruleset.py
+++ b/oa/rules/ruleset.py
@@ -154,12 +154,16 @@ class RuleSet(object):
         instead of added.
         """
         self.ctxt.log.debug("Adding header rule: %s (%s)", value, remove)
-        if not remove:
-            msg_status, header_name, header_value = value.split(None, 2)
-            header_value = self._convert_tags(header_value)
-        else:
-            msg_status, header_name = value.split(None, 1)
-            header_value = None
+        try:
+            if not remove:
+                msg_status, header_name, header_value = value.split(None, 2)
+                header_value = self._convert_tags(header_value)
+            else:
+                msg_status, header_name = value.split(None, 1)
+                header_value = None
+        except ValueError:
+            raise oa.errors.InvalidRule(
+                "remove_header" if remove else "add_header", value)
 
         msg_status = msg_status.lower()
         if msg_status not in self.header_mod:
@@ -310,10 +314,15 @@ class RuleSet(object):
             self._convert_tags(value)
             for value in self.conf["unsafe_report"]
         )
-        for value in self.conf["add_header"]:
-            self._add_header_rule(value, False)
-        for value in self.conf["remove_header"]:
-            self._add_header_rule(value, True)
+        for option, remove in (("add_header", False),
+                               ("remove_header", True)):
+            for value in self.conf[option]:
+                try:
+                    self._add_header_rule(value, remove)
+                except oa.errors.InvalidRule as e:
+                    self.ctxt.err(e)
+                    if self.ctxt.paranoid:
+                        raise
 
         for value in self.conf['dns_query_restriction']:
             try:
@@ -321,6 +330,7 @@ class RuleSet(object):
             except ValueError:
                 self.ctxt.log.info(
                     "Invalid value for dns_query_restriction: %s", value)
+                continue
 
             if option not in ("allow", "deny"):
                 self.ctxt.log.info(
-- 
2.43.0


From 12005e9588983014ed9276e7702737e06dd402ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:24 +0000
Subject: [PATCH 032/138] fix: an invalid network changes nothing

---
 oa/networks.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/oa/networks.py b/oa/networks.py
index 6707506..cb29b74 100644
--- a/oa/networks.py
+++ b/oa/networks.py
@@ -84,7 +84,10 @@ class NetworkList(object):
         return self.internal.configured or self.trusted.configured
 
     def _extract_network(self, network_str):
-        excluded, network, mask = _NETWORK_RE.match(network_str).groups()
+        match = _NETWORK_RE.match(network_str)
+        if match is None:
+            return "", None
+        excluded, network, mask = match.groups()
         clean_value = _format_network_str(network, mask)
         try:
             network = ipaddress.ip_network(clean_value)
@@ -94,6 +97,9 @@ class NetworkList(object):
 
     def add_trusted_network(self, network_str):
         excluded, network = self._extract_network(network_str)
+        if network is None:
+            self.log.info("Invalid trusted network: %s", network_str)
+            return
         self.trusted.configured = True
         self.trusted.add(network, not excluded)
         if not self.internal.configured:
@@ -101,6 +107,9 @@ class NetworkList(object):
 
     def add_internal_network(self, network_str):
         excluded, network = self._extract_network(network_str)
+        if network is None:
+            self.log.info("Invalid internal network: %s", network_str)
+            return
         if not self.internal.configured and self.internal:
             self.internal.clear()
         self.internal.configured = True
@@ -109,5 +118,8 @@ class NetworkList(object):
 
     def add_msa_network(self, network_str):
         excluded, network = self._extract_network(network_str)
+        if network is None:
+            self.log.info("Invalid MSA network: %s", network_str)
+            return
         self.internal.configured = True
         self.msa.add(network, not excluded)
-- 
2.43.0


From d4e4efe93a1d1bfdd816365df9d6e2df66964354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:24 +0000
Subject: [PATCH 033/138] fix: loading something that is not a class only
 affects its own line

---
 oa/context.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oa/context.py b/oa/context.py
index d17bc0d..07f3783 100644
--- a/oa/context.py
+++ b/oa/context.py
@@ -201,7 +201,8 @@ class GlobalContext(_Context):
         if plugin_class is None:
             raise oa.errors.PluginLoadError("Missing plugin %s in %s" %
                                             (class_name, path))
-        if not issubclass(plugin_class, oa.plugins.base.BasePlugin):
+        if not (isinstance(plugin_class, type) and
+                issubclass(plugin_class, oa.plugins.base.BasePlugin)):
             raise oa.errors.PluginLoadError("%s is not a subclass of "
                                              "BasePlugin" % class_name)
         # Initialize the plugin and load any additional data
-- 
2.43.0


From 4f3224a61098401f244008a731dd376f684e3ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:54 +0000
Subject: [PATCH 034/138] fix: take the TLDs of the freemail addresses
 literally

---
 oa/plugins/free_mail.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oa/plugins/free_mail.py b/oa/plugins/free_mail.py
index a19f232..d023c07 100644
--- a/oa/plugins/free_mail.py
+++ b/oa/plugins/free_mail.py
@@ -77,7 +77,8 @@ class FreeMail(oa.plugins.base.BasePlugin):
         valid_tlds = (self.get_global('util_rb_tld') +
                       self.get_global('util_rb_2tld') +
                       self.get_global('util_rb_3tld'))
-        tlds_re = r'(?:{0})'.format("|".join(valid_tlds))
+        tlds_re = r'(?:{0})'.format(
+            "|".join(re.escape(tld) for tld in valid_tlds))
         email_re = Regex(r"""
               (?=.{{0,64}}\@)				# limit userpart to 64 chars (and speed up searching?)
               (?<![a-z0-9!#\$%&'*+\/=?^_`{{|}}~-])	# start boundary
-- 
2.43.0


From f6b30bc64863fd0d34911685ecaeb68e0174fdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:54 +0000
Subject: [PATCH 035/138] fix: an invalid DSN does not abort the load

---
 oa/plugins/base.py | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/oa/plugins/base.py b/oa/plugins/base.py
index e6fb0b2..0609c58 100644
--- a/oa/plugins/base.py
+++ b/oa/plugins/base.py
@@ -116,20 +116,25 @@ class BasePlugin(oa.conf.Conf, object):
         """
         connect_string = None
         self["engine"] = None
-        if self.dsn:
-            if self.dsn.upper().startswith("DBI"):
-                # Convert from SA format.
-                user = self.sql_username
-                password = self.sql_password
-                if not create_engine:
-                    self["engine"] = dbi_to_mysql(self.dsn, user, password)
-                else:
-                    connect_string = dbi_to_alchemy(self.dsn, user, password)
-            elif self.dsn:
-                # The connect string is already in the correct format
-                connect_string = self.dsn
-        if connect_string is not None:
-            self["engine"] = create_engine(connect_string)
+        try:
+            if self.dsn:
+                if self.dsn.upper().startswith("DBI"):
+                    # Convert from SA format.
+                    user = self.sql_username
+                    password = self.sql_password
+                    if not create_engine:
+                        self["engine"] = dbi_to_mysql(self.dsn, user, password)
+                    else:
+                        connect_string = dbi_to_alchemy(self.dsn, user,
+                                                        password)
+                elif self.dsn:
+                    # The connect string is already in the correct format
+                    connect_string = self.dsn
+            if connect_string is not None:
+                self["engine"] = create_engine(connect_string)
+        except Exception as e:
+            # Whatever SQLAlchemy or the driver raise for an invalid DSN
+            self.ctxt.err("Unable to use the DSN %s: %s", self.dsn, e)
 
     def get_engine(self):
         return self["engine"]
-- 
2.43.0


From c138af123d10df33e6667235806b025bbb0364a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:54 +0000
Subject: [PATCH 036/138] fix: a DNS list rule with invalid arguments does not
 abort the load

---
 oa/plugins/dns_eval.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/oa/plugins/dns_eval.py b/oa/plugins/dns_eval.py
index df445ca..55db4f5 100644
--- a/oa/plugins/dns_eval.py
+++ b/oa/plugins/dns_eval.py
@@ -57,8 +57,13 @@ class DNSEval(oa.plugins.base.BasePlugin):
                     continue
                 # This eval rule actually check one rbl servers
                 # and adds a zone id.
-                zone_id = rule.eval_args[0].rsplit("-")[0].strip()
-                rbl_server = rule.eval_args[1]
+                try:
+                    zone_id = rule.eval_args[0].rsplit("-")[0].strip()
+                    rbl_server = rule.eval_args[1]
+                except (IndexError, AttributeError):
+                    self.ctxt.err("Invalid arguments for %s: %r", name,
+                                  rule.eval_args)
+                    continue
                 zones[zone_id] = rbl_server
         self["zones"] = zones
 
-- 
2.43.0


From 37de47a8941b992c12421d1d6563ad5702d7d8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:54 +0000
Subject: [PATCH 037/138] fix: an invalid geodb path does not abort the load

---
 oa/plugins/relay_country.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/plugins/relay_country.py b/oa/plugins/relay_country.py
index 7928091..babca11 100644
--- a/oa/plugins/relay_country.py
+++ b/oa/plugins/relay_country.py
@@ -50,7 +50,7 @@ class RelayCountryPlugin(oa.plugins.base.BasePlugin):
         """
         try:
             return pygeoip.GeoIP(self["geodb" + which])
-        except IOError as exc:
+        except (IOError, ValueError) as exc:
             self.ctxt.log.warning("Unable to open geo database file: %r", exc)
         return None
 
-- 
2.43.0


From 0dad232013cc84fb263e5a32023d5bb8b1a16766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:54 +0000
Subject: [PATCH 038/138] fix: use an option type that exists for
 bayes_token_sources

---
 oa/plugins/bayes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/plugins/bayes.py b/oa/plugins/bayes.py
index 65a1f6d..630cc2a 100644
--- a/oa/plugins/bayes.py
+++ b/oa/plugins/bayes.py
@@ -479,7 +479,7 @@ class BayesPlugin(oa.plugins.base.BasePlugin):
         u'bayes_sql_username': ('str', ''),
         u'bayes_sql_password': ('str', ''),
         u'bayes_auto_expire': ('int', 0),
-        u'bayes_token_sources': ('split', 'header visible invisible uri'),
+        u'bayes_token_sources': ('str', 'header visible invisible uri'),
     }
 
     eval_rules = ("check_bayes",)
-- 
2.43.0


From 647486cd8b7be8bfc20c4ad8ebf2a2bd18c0a14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:31 +0000
Subject: [PATCH 039/138] fix: a plugin that fails does not abort the scan or
 the other plugins

---
 oa/context.py | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/oa/context.py b/oa/context.py
index 07f3783..bbfdcf8 100644
--- a/oa/context.py
+++ b/oa/context.py
@@ -71,6 +71,19 @@ class _Context(object):
         for name, path in d.get("plugins_to_import", None) or ():
             self.load_plugin(name, path)
 
+    def _call_plugins(self, plugins, hook, *args):
+        """Call this hook for every plugin. A plugin that fails must not
+        affect the other plugins or the processing of the message.
+        """
+        for name, plugin in plugins.items():
+            try:
+                getattr(plugin, hook)(*args)
+            except oa.errors.InhibitCallbacks:
+                raise
+            except Exception as e:
+                self.log.critical("Unable to run %s for plugin %s: %s",
+                                  hook, name, e, exc_info=True)
+
     def set_plugin_data(self, plugin_name, key, value):
         """Store data for the specified plugin under the given key."""
         self.plugin_data[plugin_name][key] = value
@@ -353,26 +366,23 @@ class GlobalContext(_Context):
     @_callback_chain
     def hook_check_end(self, ruleset, msg):
         """Hook after the message is checked."""
-        for plugin in self.plugins.values():
-            plugin.check_end(ruleset, msg)
+        self._call_plugins(self.plugins, "check_end", ruleset, msg)
 
     @_callback_chain
     def hook_auto_learn(self, ruleset, msg):
         """Hook for calling auto learning plugins"""
-        for plugin in self.plugins.values():
-            plugin.auto_learn_discriminator(ruleset, msg)
+        self._call_plugins(self.plugins, "auto_learn_discriminator",
+                           ruleset, msg)
 
     @_callback_chain
     def hook_report(self, msg, spam=True, local=True, remote=True):
         """Hook when the message should be reported as spam."""
-        for plugin in self.plugins.values():
-            plugin.plugin_report(msg)
+        self._call_plugins(self.plugins, "plugin_report", msg)
 
     @_callback_chain
     def hook_revoke(self, msg, spam=False, local=True, remote=True):
         """Hook when the message should be reported as ham."""
-        for plugin in self.plugins.values():
-            plugin.plugin_revoke(msg)
+        self._call_plugins(self.plugins, "plugin_revoke", msg)
 
 
 class MessageContext(_Context):
@@ -385,17 +395,15 @@ class MessageContext(_Context):
     @_callback_chain
     def _hook_check_start(self):
         """Hook before the message is checked."""
-        for plugin in self.ctxt.plugins.values():
-            plugin.check_start(self)
+        self._call_plugins(self.ctxt.plugins, "check_start", self)
 
     @_callback_chain
     def _hook_extract_metadata(self, payload, text, part):
         """Hook before the message is checked."""
-        for plugin in self.ctxt.plugins.values():
-            plugin.extract_metadata(self, payload, text, part)
+        self._call_plugins(self.ctxt.plugins, "extract_metadata", self,
+                           payload, text, part)
 
     @_callback_chain
     def _hook_parsed_metadata(self):
         """Hook before the message is checked."""
-        for plugin in self.ctxt.plugins.values():
-            plugin.parsed_metadata(self)
+        self._call_plugins(self.ctxt.plugins, "parsed_metadata", self)
-- 
2.43.0


From 1b61888a7c28725861dcdfa437633f277a2b9791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:26 +0000
Subject: [PATCH 040/138] fix: loading something that is not a class only
 affects its own line (2)

---
 oa/context.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/oa/context.py b/oa/context.py
index bbfdcf8..547bbde 100644
--- a/oa/context.py
+++ b/oa/context.py
@@ -214,8 +214,12 @@ class GlobalContext(_Context):
         if plugin_class is None:
             raise oa.errors.PluginLoadError("Missing plugin %s in %s" %
                                             (class_name, path))
-        if not (isinstance(plugin_class, type) and
-                issubclass(plugin_class, oa.plugins.base.BasePlugin)):
+        try:
+            is_plugin = issubclass(plugin_class, oa.plugins.base.BasePlugin)
+        except TypeError:
+            # Not even a class
+            is_plugin = False
+        if not is_plugin:
             raise oa.errors.PluginLoadError("%s is not a subclass of "
                                              "BasePlugin" % class_name)
         # Initialize the plugin and load any additional data
-- 
2.43.0


From 85b96ea59d021abd73abd1efb7937496a95aedb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:24 +0000
Subject: [PATCH 041/138] fix: an empty URI host list entry does not abort the
 scan

---
 oa/plugins/wlbl_eval.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/oa/plugins/wlbl_eval.py b/oa/plugins/wlbl_eval.py
index 263d9cf..6bcf89f 100644
--- a/oa/plugins/wlbl_eval.py
+++ b/oa/plugins/wlbl_eval.py
@@ -136,6 +136,8 @@ class WLBLEvalPlugin(oa.plugins.base.BasePlugin):
         parsed_list = defaultdict(list)
         for x in self['delist_uri_host']:
             uri_host_list = x.split()
+            if not uri_host_list:
+                continue
             if "(" in x:
                 key = uri_host_list[0].strip("( ").rstrip(" )")
                 for uri in uri_host_list[1:]:
@@ -180,6 +182,8 @@ class WLBLEvalPlugin(oa.plugins.base.BasePlugin):
         parsed_list = defaultdict(self.my_list)
         for x in self[list_name]:
             uri_host_list = x.split()
+            if not uri_host_list:
+                continue
             key = uri_host_list[0].strip("( ").rstrip(" )")
             self.add_in_dict(uri_host_list[1:], key, parsed_list)
 
-- 
2.43.0


From cf3330dd29da080677160155a4d8afa5b70b1835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:24 +0000
Subject: [PATCH 042/138] fix: an invalid replace tag or rule does not abort
 the load

---
 oa/plugins/replace_tags.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/oa/plugins/replace_tags.py b/oa/plugins/replace_tags.py
index 9746ed2..452c532 100644
--- a/oa/plugins/replace_tags.py
+++ b/oa/plugins/replace_tags.py
@@ -43,11 +43,6 @@ class ReplaceTags(oa.plugins.base.BasePlugin):
         extra = "%s " % which
         if which == "tag":
             extra = ""
-        template = "%s%s%%s%s" % (
-            self["replace_start"],
-            extra,
-            self["replace_end"]
-        )
         result = {}
         for config in self["replace_%s" % which]:
             try:
@@ -55,10 +50,11 @@ class ReplaceTags(oa.plugins.base.BasePlugin):
             except ValueError:
                 self.ctxt.err("Invalid replace tag: %r", config)
                 continue
-            full_name = template % tag_name
+            full_name = "%s%s%s%s" % (self["replace_start"], extra, tag_name,
+                                      self["replace_end"])
             if full_name in result:
                 self.ctxt.err("Redefining replace tag: %r", full_name)
-            result[template % tag_name] = value
+            result[full_name] = value
         # Replace the list with a dictionary in the global
         # context.
         self["replace_%s" % which] = result
@@ -120,10 +116,10 @@ class ReplaceTags(oa.plugins.base.BasePlugin):
         for rule_name in self["replace_rules"]:
             try:
                 rule_results = results[rule_name]
+                rule_value = rule_results["value"]
             except KeyError:
                 self.ctxt.err("No such rule defined: %s", rule_name)
                 continue
-            rule_value = rule_results["value"]
             new_rule_value = self.replace_tags(rule_value)
             self.ctxt.log.debug("Replaced %r with %r in %s", rule_value,
                                 new_rule_value, rule_name)
-- 
2.43.0


From f22a1f5d051f140f58b1cfaa246112a56ac34e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:30 +0000
Subject: [PATCH 043/138] fix: only the comments of the MTA tell that a relay
 is authenticated

---
 oa/received_parser.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/oa/received_parser.py b/oa/received_parser.py
index 1f4b26c..35ec2bb 100644
--- a/oa/received_parser.py
+++ b/oa/received_parser.py
@@ -349,9 +349,13 @@ AUTH_VC_RE = Regex(r'.*? \(version=([^ ]+) cipher=([^\)]+)\)')
 AUTH_RE2 = Regex(r'.*? \(authenticated as (\S+)\)')
 AUTH_RE3 = Regex(r"""
 \)\s\(Authenticated\ssender:\s\S+\)\sby\s\S+\s\(Postfix\)\swith\s""", re.X)
-AUTH_RE4 = Regex(r'.* by (mail\.gmx\.(net|com)) \([^\)]+\) with ((ESMTP|SMTP))')
-AUTH_RE5 = Regex(r'.* \(account .* by .* \(CommuniGate Pro ('
-                      r'HTTP|SMTP)')
+AUTH_RE4 = Regex(r' by (mail\.gmx\.(net|com)) \([^\)]+\) with ((ESMTP|SMTP))')
+# The comment of the MTA, after the parenthesis with the address of the client
+AUTH_RE6 = Regex(r'[\])] \(authenticated[ )][^()]*')
+AUTH_RE5 = Regex(r' \(account [^()]*\) by \S+ \(CommuniGate Pro (HTTP|SMTP)')
+
+# What the client claims to be, this is not the address it connected from
+CLAIMED_RE = Regex(r'(?<=[( ])(?:helo=|ident=|HELO |EHLO )\S*')
 
 ORIGINATING_IP_HEADER_RE = r"^X-ORIGINATING-IP: ({}).*"
 
@@ -661,11 +665,11 @@ class ReceivedParser(object):
                        "cipher={cipher}".format(version=version, cipher=cipher)
             except (AttributeError, IndexError):
                 pass
-        elif 'SquirrelMail authenticated ' in header:
+        elif '(SquirrelMail authenticated ' in header:
             auth = "SquirrelMail"
         elif 'authenticated' in header and AUTH_RE2.search(header):
             auth = "CriticalPath"
-        elif 'authenticated' in header:
+        elif AUTH_RE6.search(header):
             auth = "Sendmail"
         elif AUTH_RE4.search(header):
             re_auth = AUTH_RE4.search(header).groups()
-- 
2.43.0


From f1d4b23e4dc033fb6f1c3d8005b27784894f4146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:30 +0000
Subject: [PATCH 044/138] fix: crafted Received headers do not stall the parser

---
 oa/received_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oa/received_parser.py b/oa/received_parser.py
index 35ec2bb..26a4eeb 100644
--- a/oa/received_parser.py
+++ b/oa/received_parser.py
@@ -396,7 +396,7 @@ class ReceivedParser(object):
         # Received: from cabbage.jmason.org [127.0.0.1]
         # by localhost with IMAP (fetchmail-5.9.0)
         # for jm@localhost (single-drop); Thu, 13 Mar 2003 20:39:56 -0800 (PST)
-        if 'fetchmail' in header and FETCHMAIL.search(header):
+        if 'fetchmail' in header and FETCHMAIL.match(header):
             return True
         # Received: from faerber.muc.de by slarti.muc.de with BSMTP (rsmtp-qm)
         # for asrg@ietf.org; 7 Mar 2003 21:10:38 -0000
@@ -667,7 +667,7 @@ class ReceivedParser(object):
                 pass
         elif '(SquirrelMail authenticated ' in header:
             auth = "SquirrelMail"
-        elif 'authenticated' in header and AUTH_RE2.search(header):
+        elif 'authenticated' in header and AUTH_RE2.match(header):
             auth = "CriticalPath"
         elif AUTH_RE6.search(header):
             auth = "Sendmail"
-- 
2.43.0


From 9a8eb7beb506c73d905ad7e77c8e116b9054b191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:30 +0000
Subject: [PATCH 045/138] fix: an address literal in HELO is not the rDNS of
 the relay

---
 oa/received_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/received_parser.py b/oa/received_parser.py
index 26a4eeb..17c3aad 100644
--- a/oa/received_parser.py
+++ b/oa/received_parser.py
@@ -332,7 +332,7 @@ HELO_RE6 = Regex(r"""
     ^(\S+)\s\(\[{IP_ADDRESS}\]\s\[{IP_ADDRESS}\]\)
 """.format(IP_ADDRESS=IP_ADDRESS.pattern), re.X)
 HELO_RE7 = Regex(r"""
-    ^(\S+)\s\((\S+)\s?\[{IP_ADDRESS}\].*\)
+    ^(\S+)\s\((?!helo[=\s]|HELO\s|EHLO\s)(\S+)\s?\[{IP_ADDRESS}\].*\)
 """.format(IP_ADDRESS=IP_ADDRESS.pattern), re.X)
 HELO_RE8 = Regex(r"""
     ^\(?(\S+)\s\[\s?{IP_ADDRESS}\]
-- 
2.43.0


From c4e652e968f4f414a5de5120d7c5888b471a77b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:30 +0000
Subject: [PATCH 046/138] fix: only Received headers that start with from are
 relays

---
 oa/received_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oa/received_parser.py b/oa/received_parser.py
index 17c3aad..50f3648 100644
--- a/oa/received_parser.py
+++ b/oa/received_parser.py
@@ -367,9 +367,9 @@ class ReceivedParser(object):
         self.received_headers = list()
         self.received = list()
         for header in received_headers:
-            if header.startswith('from'):
+            if re.match(r'from\s', header):
                 header = re.sub(r'\s+', ' ', header)  # removing '\n\t' chars
-                header = header.replace('from ', '', 1)
+                header = header[len('from '):]
                 header = header.split(';')[0]
                 self.received_headers.append(header)
             elif header.startswith("X-ORIGINATING-IP"):
-- 
2.43.0


From 59db2925258ae3a711e589e7ea694ff94c8adf0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:30 +0000
Subject: [PATCH 047/138] fix: take the address of the relay, not what the
 client claims or no address

---
 oa/received_parser.py | 74 +++++++++++++++++++++++--------------------
 1 file changed, 39 insertions(+), 35 deletions(-)

diff --git a/oa/received_parser.py b/oa/received_parser.py
index 50f3648..08d836b 100644
--- a/oa/received_parser.py
+++ b/oa/received_parser.py
@@ -11,6 +11,10 @@ It extracts the following metadata:
 """
 
 import re
+import ipaddress
+
+from builtins import str
+
 from oa.regex import Regex
 
 LOCALHOST = Regex(r"""
@@ -181,32 +185,32 @@ IP_ADDRESS = Regex(r"""
               # IPv6 addresses
               # don't use \b here, it hits on :'s
               (?:IPv6:    # with optional prefix
-                        | (?<![a-f0-9:])
+                        | (?<![a-fA-F0-9:])
                       )
               (?:
             # IPv4 mapped in IPv6
             # note the colon after the 12th byte in each here
             (?:
               # first 6 (12 bytes) non-zero
-              (?:[a-f0-9]{1,4}:){6}
+              (?:[a-fA-F0-9]{1,4}:){6}
               |
               # leading zeros omitted (note {0,5} not {1,5})
-              ::(?:[a-f0-9]{1,4}:){0,5}
+              ::(?:[a-fA-F0-9]{1,4}:){0,5}
               |
               # trailing zeros (in the first 6) omitted
-              (?:[a-f0-9]{1,4}:){1,5}:
+              (?:[a-fA-F0-9]{1,4}:){1,5}:
               |
               # 0000 in second up to (including) fifth omitted
-              [a-f0-9]{1,4}::(?:[a-f0-9]{1,4}:){1,4}
+              [a-fA-F0-9]{1,4}::(?:[a-fA-F0-9]{1,4}:){1,4}
               |
               # 0000 in third up to (including) fifth omitted
-              (?:[a-f0-9]{1,4}:){2}:(?:[a-f0-9]{1,4}:){1,3}
+              (?:[a-fA-F0-9]{1,4}:){2}:(?:[a-fA-F0-9]{1,4}:){1,3}
               |
               # 0000 in fourth up to (including) fifth omitted
-              (?:[a-f0-9]{1,4}:){3}:(?:[a-f0-9]{1,4}:){1,2}
+              (?:[a-fA-F0-9]{1,4}:){3}:(?:[a-fA-F0-9]{1,4}:){1,2}
               |
               # 0000 in fifth omitted
-              (?:[a-f0-9]{1,4}:){4}:[a-f0-9]{1,4}:
+              (?:[a-fA-F0-9]{1,4}:){4}:[a-fA-F0-9]{1,4}:
             )
             # and the IPv4 address appended to all of the 12 bytes above
             (?:1\d\d|2[0-4]\d|25[0-5]|\d\d|\d)\.
@@ -217,31 +221,31 @@ IP_ADDRESS = Regex(r"""
             | # or (separately) a pure IPv6 address
 
             # all 8 (16 bytes) of them present
-            (?:[a-f0-9]{1,4}:){7}[a-f0-9]{1,4}
+            (?:[a-fA-F0-9]{1,4}:){7}[a-fA-F0-9]{1,4}
             |
             # leading zeros omitted
-            :(?::[a-f0-9]{1,4}){1,7}
+            :(?::[a-fA-F0-9]{1,4}){1,7}
             |
             # trailing zeros omitted
-            (?:[a-f0-9]{1,4}:){1,7}:
+            (?:[a-fA-F0-9]{1,4}:){1,7}:
             |
             # 0000 in second up to (including) seventh omitted
-            [a-f0-9]{1,4}:(?::[a-f0-9]{1,4}){1,6}
+            [a-fA-F0-9]{1,4}:(?::[a-fA-F0-9]{1,4}){1,6}
             |
             # 0000 in third up to (including) seventh omitted
-            (?:[a-f0-9]{1,4}:){2}(?::[a-f0-9]{1,4}){1,5}
+            (?:[a-fA-F0-9]{1,4}:){2}(?::[a-fA-F0-9]{1,4}){1,5}
             |
             # 0000 in fouth up to (including) seventh omitted
-            (?:[a-f0-9]{1,4}:){3}(?::[a-f0-9]{1,4}){1,4}
+            (?:[a-fA-F0-9]{1,4}:){3}(?::[a-fA-F0-9]{1,4}){1,4}
             |
             # 0000 in fifth up to (including) seventh omitted
-            (?:[a-f0-9]{1,4}:){4}(?::[a-f0-9]{1,4}){1,3}
+            (?:[a-fA-F0-9]{1,4}:){4}(?::[a-fA-F0-9]{1,4}){1,3}
             |
             # 0000 in sixth up to (including) seventh omitted
-            (?:[a-f0-9]{1,4}:){5}(?::[a-f0-9]{1,4}){1,2}
+            (?:[a-fA-F0-9]{1,4}:){5}(?::[a-fA-F0-9]{1,4}){1,2}
             |
             # 0000 in seventh omitted
-            (?:[a-f0-9]{1,4}:){6}:[a-f0-9]{1,4}
+            (?:[a-fA-F0-9]{1,4}:){6}:[a-fA-F0-9]{1,4}
             |
             # :: (the unspecified address 0:0:0:0:0:0:0:0)
             # dos: I don't expect to see this address in a header, and
@@ -249,7 +253,7 @@ IP_ADDRESS = Regex(r"""
             # include it for now since it is valid
             ::
               )
-              (?![a-f0-9:])
+              (?![a-fA-F0-9:])
             )""", re.X)
 
 IPFRE = Regex(r"[\[ \(]{1}[a-fA-F\d\.\:]{7,}?[\] \n;\)]{1}")
@@ -538,22 +542,19 @@ class ReceivedParser(object):
         :return: ip address if is found if not it returns an empty string
         """
         ip = ""
-        ips = IP_ADDRESS.findall(header.split(" by ")[0])
-        no_ips = len(ips)
-        private_ips = list()
-        count = 0
-        for item in ips:
-            clean_ip = item.strip("[ ]();\n")
-            clean_ip = clean_ip.lower().replace('ipv6:','')
-            clean_ip = clean_ip.lower().replace('::ffff:','')
-            if IP_PRIVATE.search(clean_ip):
-                count += 1
-                private_ips.append(clean_ip)
-            if not IP_PRIVATE.search(clean_ip):
-                ip = clean_ip
-                # break
-        if no_ips != 0 and count == no_ips:
-            ip = private_ips[0]
+        header = CLAIMED_RE.sub("", header.split(" by ")[0])
+        # The MTA adds the address after the names that the client claims.
+        for item in IP_ADDRESS.findall(header):
+            clean_ip = item.strip("[ ]();\n").lower()
+            if clean_ip.startswith("ipv6:"):
+                clean_ip = clean_ip[len("ipv6:"):]
+            if clean_ip.startswith("::ffff:") and "." in clean_ip:
+                clean_ip = clean_ip[len("::ffff:"):]
+            try:
+                ipaddress.ip_address(str(clean_ip))
+            except ValueError:
+                continue
+            ip = clean_ip
         return ip
 
     @staticmethod
@@ -681,8 +682,11 @@ class ReceivedParser(object):
     def _parse_message(self):
         for header in self.received_headers:
             if not self.check_for_skip(header):
-                rdns = self.get_rdns(header)
                 ip = self.get_ip(header)
+                if not ip:
+                    # This isn't a relay unless it has an address.
+                    continue
+                rdns = self.get_rdns(header)
                 by = self.get_by(header)
                 helo = self.get_helo(header)
                 ident = self.get_ident(header)
-- 
2.43.0


From 658094e951a149031d1ed3735c26942015b2e760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:59 +0000
Subject: [PATCH 048/138] fix: add the X-Spam-Report header only to spam, as
 documented

---
 oa/rules/ruleset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/rules/ruleset.py b/oa/rules/ruleset.py
index b377761..636f013 100644
--- a/oa/rules/ruleset.py
+++ b/oa/rules/ruleset.py
@@ -180,7 +180,7 @@ class RuleSet(object):
             newmsg = email.message_from_string(msg.raw_msg)
         else:
             newmsg = self._get_bounce_message(msg)
-        if self.conf["report_safe"] == 0:
+        if spam and self.conf["report_safe"] == 0:
             newmsg.add_header("X-Spam-Report", self._fold_header(
                 self.get_matched_report(msg)))
         self._adjust_headers(msg, newmsg, self.header_mod["all"])
-- 
2.43.0


From 021865cb1ec0be9da2f1ed465cb8db5aaa30cd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:59 +0000
Subject: [PATCH 049/138] fix: reproduce percent signs and double underscores
 of templates literally

---
 oa/rules/ruleset.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oa/rules/ruleset.py b/oa/rules/ruleset.py
index 636f013..8f583bf 100644
--- a/oa/rules/ruleset.py
+++ b/oa/rules/ruleset.py
@@ -18,7 +18,7 @@ import oa
 import oa.errors
 import oa.regex
 
-_TAG_RE = oa.regex.Regex(r"(_([A-Z_]*?)_)")
+_TAG_RE = oa.regex.Regex(r"(_([A-Z][A-Z_]*?)_)")
 
 _DNS_OPTIONS_RE = oa.regex.Regex(r"""
 [
@@ -123,6 +123,8 @@ class RuleSet(object):
     def _convert_tags(self, text):
         """Replace _TAGS_ with placeholders. %(TAG)s"""
         text = text.strip("'\"")
+        # The text is going to be used as a format string
+        text = text.replace("%", "%%")
         for tag in _TAG_RE.findall(text):
             self.tags.add(tag[1])
         return _TAG_RE.sub(r"%(\2)s", text)
-- 
2.43.0


From 0c62e090a6c051cb64f4120d2f5ea85c161064bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:59 +0000
Subject: [PATCH 050/138] fix: list the scores of the rules in the TESTSSCORES
 tag

---
 oa/rules/ruleset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/rules/ruleset.py b/oa/rules/ruleset.py
index 8f583bf..ea7290e 100644
--- a/oa/rules/ruleset.py
+++ b/oa/rules/ruleset.py
@@ -89,7 +89,7 @@ class RuleSet(object):
                 data["TESTS"] = ",".join(matched_rules)
 
         if "TESTSSCORES" in self.tags:
-            matched_rules = ["%s=%s" % (name, int(result))
+            matched_rules = ["%s=%s" % (name, self.get_rule(name).score)
                              for name, result in msg.rules_checked.items()
                              if result]
             if not matched_rules:
-- 
2.43.0


From e8fb00c2924d7eea6feab4b4558ba0f04f8b0820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:59 +0000
Subject: [PATCH 051/138] fix: LASTEXTERNAL tags describe the
 external-to-internal handover

---
 oa/message.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oa/message.py b/oa/message.py
index fc82df5..7b8ad1f 100644
--- a/oa/message.py
+++ b/oa/message.py
@@ -430,9 +430,9 @@ class Message(oa.context.MessageContext):
         }
         if self.external_relays:
             relays_tags.update({
-                "LASTEXTERNALIP": self.external_relays[-1]['ip'],
-                "LASTEXTERNALRDNS": self.external_relays[-1]['rdns'],
-                "LASTEXTERNALHELO": self.external_relays[-1]['helo']
+                "LASTEXTERNALIP": self.external_relays[0]['ip'],
+                "LASTEXTERNALRDNS": self.external_relays[0]['rdns'],
+                "LASTEXTERNALHELO": self.external_relays[0]['helo']
             })
 
         self._create_plugin_tags(relays_tags)
-- 
2.43.0


From 45bdcb714e17b9bf2c0f210303bfd3b372681c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:12 +0000
Subject: [PATCH 052/138] fix: support the documented separator of the TESTS
 tag

---
 oa/rules/ruleset.py | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/oa/rules/ruleset.py b/oa/rules/ruleset.py
index ea7290e..b526bf5 100644
--- a/oa/rules/ruleset.py
+++ b/oa/rules/ruleset.py
@@ -18,7 +18,8 @@ import oa
 import oa.errors
 import oa.regex
 
-_TAG_RE = oa.regex.Regex(r"(_([A-Z][A-Z_]*?)_)")
+_TAG_RE = oa.regex.Regex(
+    r"(_(TESTS(?:SCORES)?\([^()]*\)|[A-Z][A-Z_]*?)_)")
 
 _DNS_OPTIONS_RE = oa.regex.Regex(r"""
 [
@@ -80,22 +81,20 @@ class RuleSet(object):
         # so only add them if they are required.
         if "REPORT" in self.tags:
             data["REPORT"] = self.get_matched_report(msg)
-        if "TESTS" in self.tags:
-            matched_rules = [name for name, result in msg.rules_checked.items()
-                             if result]
-            if not matched_rules:
-                data["TESTS"] = "none"
-            else:
-                data["TESTS"] = ",".join(matched_rules)
-
-        if "TESTSSCORES" in self.tags:
-            matched_rules = ["%s=%s" % (name, self.get_rule(name).score)
-                             for name, result in msg.rules_checked.items()
-                             if result]
-            if not matched_rules:
-                data["TESTSSCORES"] = "none"
+        for tag in self.tags:
+            # The tag may include another separator: TESTS(;)
+            tag_name, _, separator = tag.partition("(")
+            separator = separator[:-1].replace("%%", "%") if separator else ","
+            if tag_name == "TESTS":
+                matched_rules = [name for name, result
+                                 in msg.rules_checked.items() if result]
+            elif tag_name == "TESTSSCORES":
+                matched_rules = ["%s=%s" % (name, self.get_rule(name).score)
+                                 for name, result in msg.rules_checked.items()
+                                 if result]
             else:
-                data["TESTSSCORES"] = ",".join(matched_rules)
+                continue
+            data[tag] = separator.join(matched_rules) or "none"
 
         if "SUMMARY" in self.tags:
             data["SUMMARY"] = self.get_summary_report(msg)
-- 
2.43.0


From d70d72fe12604789c43ecdf857606445a44cd510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:54 +0000
Subject: [PATCH 053/138] fix: return the body of the original message
 unchanged

---
 oa/rules/ruleset.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/oa/rules/ruleset.py b/oa/rules/ruleset.py
index b526bf5..543e7bd 100644
--- a/oa/rules/ruleset.py
+++ b/oa/rules/ruleset.py
@@ -30,6 +30,15 @@ _DNS_OPTIONS_RE = oa.regex.Regex(r"""
 """, re.I | re.X | re.M)
 
 
+class _OriginalMessage(email.message.Message):
+    """The message being checked. Only the headers are going to be changed, so
+    the body is kept as it is instead of parsing and generating it again.
+    """
+
+    def get_content_type(self):
+        return "text/plain"
+
+
 class RuleSet(object):
     """A set of rules used to match against a message."""
     header_start = "X-Spam-"
@@ -178,7 +187,7 @@ class RuleSet(object):
         """Get message adjusted by the rules."""
         spam = msg.score >= self.conf["required_score"]
         if not spam or header_only or self.conf["report_safe"] == 0:
-            newmsg = email.message_from_string(msg.raw_msg)
+            newmsg = email.message_from_string(msg.raw_msg, _OriginalMessage)
         else:
             newmsg = self._get_bounce_message(msg)
         if spam and self.conf["report_safe"] == 0:
-- 
2.43.0


From 05f3d9272dab6ab7d86000f6dd1d8433fae5fa73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:54 +0000
Subject: [PATCH 054/138] fix: do not return the body in the headers only mode
 if there are no headers

---
 oa/rules/ruleset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/oa/rules/ruleset.py b/oa/rules/ruleset.py
index 543e7bd..9ef8994 100644
--- a/oa/rules/ruleset.py
+++ b/oa/rules/ruleset.py
@@ -199,6 +199,7 @@ class RuleSet(object):
         else:
             self._adjust_headers(msg, newmsg, self.header_mod["ham"])
         if header_only:
+            newmsg.set_payload("")
             return newmsg.as_string().split("\n\n", 1)[0] + "\n\n"
         return newmsg.as_string()
 
-- 
2.43.0


From 261a96be4807b28da50b75bd8d658d8d3c29f40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:13 +0000
Subject: [PATCH 055/138] fix: describe the short-circuited rule in the report

---
 oa/plugins/short_circuit.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/oa/plugins/short_circuit.py b/oa/plugins/short_circuit.py
index a427a81..e72a95f 100644
--- a/oa/plugins/short_circuit.py
+++ b/oa/plugins/short_circuit.py
@@ -36,6 +36,11 @@ class ShortCircuitRule(object):
         msg.plugin_tags["SC"] = "%s (%s)" % (self.rule.name, self.stype)
         # Add the score of the current rule (this will
         # be skipped in the ruleset otherwise
+        if isinstance(result, str):
+            msg.rules_descriptions[self.rule.name] = result
+            result = True
+        else:
+            msg.rules_descriptions[self.rule.name] = self.rule.description
         msg.rules_checked[self.rule.name] = result
         msg.score += self.rule.score
 
-- 
2.43.0


From 29a83887265b12666dc76aca954c9311634423ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:13 +0000
Subject: [PATCH 056/138] fix: count the forged relays of each message instead
 of the first one scanned

---
 oa/plugins/relay_eval.py | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/oa/plugins/relay_eval.py b/oa/plugins/relay_eval.py
index 606b62b..a83e88e 100644
--- a/oa/plugins/relay_eval.py
+++ b/oa/plugins/relay_eval.py
@@ -126,27 +126,13 @@ class RelayEval(oa.plugins.base.BasePlugin):
     def check_for_forged_received_trail(self, msg, option=None, target=None):
         """Check if there are more than one untrusted relays and verify if
         rdns is different than the other relay's by."""
-        try:
-            mismatch_from = self.get_global("mismatch_from")
-        except KeyError:
-            mismatch_from = None
-        if mismatch_from is None:
-            self._check_for_forged_received(msg)
-        else:
-            return bool(mismatch_from > 1)
+        self._check_for_forged_received(msg)
         return bool(self.get_global("mismatch_from") > 1)
 
     def check_for_forged_received_ip_helo(self, msg, option=None, target=None):
         """Verify if helo and ip are IP ADDRESSES and if they are different,
         this means that received ip is forged"""
-        try:
-            mismatch_ip_helo = self.get_global("mismatch_ip_helo")
-        except KeyError:
-            mismatch_ip_helo = None
-        if mismatch_ip_helo is None:
-            self._check_for_forged_received(msg)
-        else:
-            return bool(mismatch_ip_helo > 0)
+        self._check_for_forged_received(msg)
         return bool(self.get_global("mismatch_ip_helo") > 0)
 
     def helo_ip_mismatch(self, msg, option=None, target=None):
-- 
2.43.0


From c5f0e648530b7de772bbb68b3f64ea265f2fd54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:13 +0000
Subject: [PATCH 057/138] fix: keep the headers of the message when looking for
 illegal characters

---
 oa/plugins/header_eval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/plugins/header_eval.py b/oa/plugins/header_eval.py
index eb863c5..c4d1ff3 100644
--- a/oa/plugins/header_eval.py
+++ b/oa/plugins/header_eval.py
@@ -157,7 +157,7 @@ class HeaderEval(oa.plugins.base.BasePlugin):
                                   "invalid option: %s", count)
             return False
         if header == 'ALL':
-            raw_headers = msg.raw_headers
+            raw_headers = dict(msg.raw_headers)
             key_headers = []
             for keys in raw_headers.keys():
                 key_headers.append(keys)
-- 
2.43.0


From a841012fddb050de839d39558c74bfdb64b39e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:13 +0000
Subject: [PATCH 058/138] fix: do not carry SPF results over to the next
 message

---
 oa/plugins/spf.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/oa/plugins/spf.py b/oa/plugins/spf.py
index 391bfc1..773a61f 100644
--- a/oa/plugins/spf.py
+++ b/oa/plugins/spf.py
@@ -73,6 +73,14 @@ class SpfPlugin(oa.plugins.base.BasePlugin):
         "check_def_spf_whitelist_from": 0
     }
 
+    def check_start(self, msg):
+        """Forget the results of the previous message."""
+        super(SpfPlugin, self).check_start(msg)
+        self.check_result = dict.fromkeys(self.check_result, 0)
+        self.spf_check = False
+        self.spf_check_helo = False
+        self.no_valid_identity = False
+
     def parsed_metadata(self, msg):
         if self.get_global("ignore_received_spf_header"):
             # The plugin will ignore the spf headers and will perform
-- 
2.43.0


From 95b1f22c06ba7db9a2649f545b65a68402cc812b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:13 +0000
Subject: [PATCH 059/138] fix: do not carry DKIM results over to the next
 message

---
 oa/plugins/dkim.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/oa/plugins/dkim.py b/oa/plugins/dkim.py
index e6f8368..476a5d1 100644
--- a/oa/plugins/dkim.py
+++ b/oa/plugins/dkim.py
@@ -57,6 +57,19 @@ class DKIMPlugin(oa.plugins.base.BasePlugin):
         "U": "unknown"
     }
 
+    def check_start(self, msg):
+        """Forget the results of the previous message."""
+        super(DKIMPlugin, self).check_start(msg)
+        self.author_addresses = []
+        self.author_domains = []
+        self.dkim_checked_signature = 0
+        self.dkim_signed = 0
+        self.dkim_valid = 0
+        self.dkim_has_valid_author_sig = 0
+        self.dkim_signatures_dependable = 0
+        self.is_valid = 1
+        self.match_adsp = 0
+
     def get_txt(self, name):
         """Return a TXT record associated with a DNS name.
 
-- 
2.43.0


From 8d27bb2cd5cbb0ca2f4b8a81f2219e7041b174ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:32 +0000
Subject: [PATCH 060/138] fix: do not depend on the order of the date rules
 when a date is missing

---
 oa/plugins/header_eval.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/oa/plugins/header_eval.py b/oa/plugins/header_eval.py
index c4d1ff3..c24ed73 100644
--- a/oa/plugins/header_eval.py
+++ b/oa/plugins/header_eval.py
@@ -473,13 +473,14 @@ class HeaderEval(oa.plugins.base.BasePlugin):
             time_in_seconds = time.mktime(parsed_date)
             date_time = datetime.datetime.utcfromtimestamp(
                 time_in_seconds)
-        except ValueError:
+        except (ValueError, TypeError, OverflowError):
             return
         return date_time
 
     def _get_date_header_time(self, msg):
         try:
-            return self.get_local(msg, "date_header_time")
+            date_time = self.get_local(msg, "date_header_time")
+            return None if date_time == -1 else date_time
         except KeyError:
             pass
 
@@ -531,6 +532,9 @@ class HeaderEval(oa.plugins.base.BasePlugin):
         date_header_time = self._get_date_header_time(msg)
         received_header_times = self._get_received_header_times(msg)
 
+        if not date_header_time:
+            return datetime.timedelta(0)
+
         diffs = []
         for received_header_time in received_header_times:
             diff = abs(received_header_time - date_header_time)
@@ -760,9 +764,12 @@ class HeaderEval(oa.plugins.base.BasePlugin):
         except KeyError:
             pass
 
-        all_times = self._get_received_header_times(msg) + [
-            self._get_date_header_time(msg)
-        ]
+        all_times = list(self._get_received_header_times(msg))
+        date_header_time = self._get_date_header_time(msg)
+        if date_header_time:
+            all_times.append(date_header_time)
+        if not all_times:
+            return None
         median = int(len(all_times)/2)
         date_received = sorted(all_times, reverse=True)[median]
         self.set_local(msg, "date_received", date_received)
@@ -784,9 +791,12 @@ class HeaderEval(oa.plugins.base.BasePlugin):
                                "min and max should be integer values")
             return False
 
+        date_received = self._check_date_received(msg)
+        if not date_received:
+            return False
         diff = relativedelta.relativedelta(
             datetime.datetime.utcnow(),
-            self._check_date_received(msg)
+            date_received
         )
 
         number_months = (diff.year or 0) * 12 + (diff.months or 0)
-- 
2.43.0


From ce8faf3add9b231989169cb568f427e66b644dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:32 +0000
Subject: [PATCH 061/138] fix: remember the razor result instead of the exit
 code, which is its opposite

---
 oa/plugins/razor2.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oa/plugins/razor2.py b/oa/plugins/razor2.py
index 4c8827a..b8386c2 100644
--- a/oa/plugins/razor2.py
+++ b/oa/plugins/razor2.py
@@ -72,10 +72,10 @@ class Razor2Plugin(oa.plugins.base.BasePlugin):
         finally:
             my_timer.cancel()
 
-        if proc.returncode in (1, 0):
-            self.set_local(msg, "razor2_result", proc.returncode)
         self.ctxt.log.debug(proc.returncode)
-        return not proc.returncode
+        result = not proc.returncode
+        self.set_local(msg, "razor2_result", result)
+        return result
 
     def launch_subprocess(self, msg, name):
         if not self["razor_config"]:
-- 
2.43.0


From fa7988172018701844d2813c8899b10d7992231c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:32 +0000
Subject: [PATCH 062/138] fix: detect the same languages every time the same
 message is scanned

---
 oa/plugins/textcat.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/oa/plugins/textcat.py b/oa/plugins/textcat.py
index 81e4be4..80cf9cf 100644
--- a/oa/plugins/textcat.py
+++ b/oa/plugins/textcat.py
@@ -21,6 +21,10 @@ except ImportError:
 
 import oa.plugins.base
 
+# The detection is random otherwise, so the same message gives different
+# results.
+langdetect.DetectorFactory.seed = 0
+
 
 class TextCatPlugin(oa.plugins.base.BasePlugin):
     """This plugin will detect the language of the
-- 
2.43.0


From b83208e4f82081742db51b08c7eecf524e4ef5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:43 +0000
Subject: [PATCH 063/138] fix: decide unknown DKIM signing practices without
 the rules run before

---
 oa/plugins/dkim.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/oa/plugins/dkim.py b/oa/plugins/dkim.py
index 476a5d1..f490d50 100644
--- a/oa/plugins/dkim.py
+++ b/oa/plugins/dkim.py
@@ -27,7 +27,6 @@ class DKIMPlugin(oa.plugins.base.BasePlugin):
     dkim_has_valid_author_sig = 0
     dkim_signatures_dependable = 0
     is_valid = 1
-    match_adsp = 0
 
     eval_rules = (
         "check_dkim_adsp",
@@ -68,7 +67,6 @@ class DKIMPlugin(oa.plugins.base.BasePlugin):
         self.dkim_has_valid_author_sig = 0
         self.dkim_signatures_dependable = 0
         self.is_valid = 1
-        self.match_adsp = 0
 
     def get_txt(self, name):
         """Return a TXT record associated with a DNS name.
@@ -139,24 +137,31 @@ class DKIMPlugin(oa.plugins.base.BasePlugin):
                 continue
             if not parsed_adsp_override[author]:
                 if adsp_char == 'D':
-                    self.match_adsp = 1
                     return True
             if adsp_char == "*":
-                self.match_adsp = 1
                 return True
             try:
                 for key in parsed_adsp_override.keys():
                     if Regex(key).search(author) and parsed_adsp_override[key]:
                         if self.adsp_options[adsp_char] == \
                                 parsed_adsp_override[key].lower():
-                            self.match_adsp = 1
                             return True
             except KeyError:
                 return False
             except AttributeError:
                 continue
-        if not self.match_adsp and adsp_char == 'U':
-            return True
+        if adsp_char == 'U':
+            return not self._known_adsp(parsed_adsp_override)
+        return False
+
+    def _known_adsp(self, parsed_adsp_override):
+        """Check if the signing practices of any of the authors are known."""
+        for author in self.author_domains:
+            for key, practice in parsed_adsp_override.items():
+                if practice == [] or not Regex(key).search(author):
+                    continue
+                if practice.lower() != "unknown":
+                    return True
         return False
 
     def check_dkim_signed(self, msg, *args, **kwargs):
-- 
2.43.0


From 5d0af016499e2e2a388d4b7835d8f43435a22dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:29 +0000
Subject: [PATCH 064/138] fix: a DKIM signature that could not be verified is
 not valid

---
 oa/plugins/dkim.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/oa/plugins/dkim.py b/oa/plugins/dkim.py
index f490d50..2d5cc7f 100644
--- a/oa/plugins/dkim.py
+++ b/oa/plugins/dkim.py
@@ -290,7 +290,11 @@ class DKIMPlugin(oa.plugins.base.BasePlugin):
         signature = msg.msg.get('DKIM-Signature', "")
         if not signature:
             self.dkim_signed = 0
-        parsed_signature = dkim.util.parse_tag_value(signature.encode())
+        try:
+            parsed_signature = dkim.util.parse_tag_value(signature.encode())
+        except dkim.util.InvalidTagValueList as e:
+            self.ctxt.log.debug("Invalid DKIM signature: %s", e)
+            parsed_signature = {}
         try:
             if parsed_signature[b'd'] not in self.author_domains:
                 self.dkim_valid = 0
@@ -319,6 +323,11 @@ class DKIMPlugin(oa.plugins.base.BasePlugin):
         except dkim.KeyFormatError:
             self.dkim_valid = 0
             self.dkim_has_valid_author_sig = 0
+        except Exception as e:
+            # Whatever cannot be verified is not valid
+            self.ctxt.log.info("Unable to verify the DKIM signature: %s", e)
+            self.dkim_valid = 0
+            self.dkim_has_valid_author_sig = 0
 
 
 
-- 
2.43.0


From 84af3b8e5213f673f8a85235d9c53382cac5031e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:21 +0000
Subject: [PATCH 065/138] fix: scan messages with too many levels of parts
 instead of failing

---
 oa/message.py | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/oa/message.py b/oa/message.py
index 7b8ad1f..bdb8588 100644
--- a/oa/message.py
+++ b/oa/message.py
@@ -18,6 +18,7 @@ import html.parser
 import collections
 import email.header
 import email.errors
+import email.parser
 import email.mime.base
 import email.mime.text
 import email.feedparser
@@ -122,6 +123,9 @@ class _memoize(object):
         return wrapped_func
 
 
+# Parts nested deeper than this are not extracted
+MAX_NESTED_PARTS = 200
+
 DEFAULT_SENDERH = (
     "X-Sender", "X-Envelope-From", "Envelope-Sender", "Return-Path"
 )
@@ -138,7 +142,7 @@ class Message(oa.context.MessageContext):
         self.missing_header_body_separator = False
         super(Message, self).__init__(global_context)
         self.raw_msg = self.translate_line_breaks(raw_msg)
-        self.msg = email.message_from_string(self.raw_msg)
+        self.msg = self._parse_email(self.raw_msg)
         self.headers = _Headers()
         self.raw_headers = _Headers()
         # The names of the headers as they are written in the message
@@ -176,6 +180,25 @@ class Message(oa.context.MessageContext):
         self.interpolate_data = dict()
         self.score = 0
 
+    @staticmethod
+    def _parse_email(raw_msg):
+        """Parse the message. Parts nested too deep to be handled are left
+        out, or all of them if the message can't be parsed otherwise.
+        """
+        try:
+            msg = email.message_from_string(raw_msg)
+        except RuntimeError:
+            # Maximum recursion depth exceeded
+            return email.parser.HeaderParser().parsestr(raw_msg)
+        level = [msg]
+        for dummy in range(MAX_NESTED_PARTS):
+            level = [subpart for part in level if part.is_multipart()
+                     for subpart in part.get_payload()]
+        for part in level:
+            if part.is_multipart():
+                part.set_payload("")
+        return msg
+
     @staticmethod
     def translate_line_breaks(text):
         """Convert any EOL style to Linux EOL."""
-- 
2.43.0


From 0ef5b28fba4b63f887bfe791d7f8f667e1bbfab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:17 +0000
Subject: [PATCH 066/138] fix: decode the message of a request as a whole,
 after decompressing it

---
 oa/protocol/base.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/oa/protocol/base.py b/oa/protocol/base.py
index 78a5b04..6220210 100644
--- a/oa/protocol/base.py
+++ b/oa/protocol/base.py
@@ -48,7 +48,8 @@ class BaseProtocol(object):
     def get_message(self, options):
         """Retrieve the message from the client.
 
-        The data is read in chunks and returned as a joined string.
+        The data is read in chunks and returned as a joined string, without
+        the bytes that are not UTF-8.
         """
         message_chunks = list()
         # If the Content-Length is available it's much easier to
@@ -67,12 +68,18 @@ class BaseProtocol(object):
                                         self.chunk_size))
             if not chunk:
                 break
-            message_chunks.append(chunk.decode("utf8"))
+            message_chunks.append(chunk)
             if content_length is not None:
                 content_length -= len(chunk)
-        if options.get('compress') == "zlib":
-            return zlib.decompress("".join(message_chunks))
-        return "".join(message_chunks)
+        # A character can be split between chunks so only decode the whole.
+        message = b"".join(message_chunks)
+        if options.get('compress', "").lower() == "zlib":
+            try:
+                message = zlib.decompress(message)
+            except zlib.error as e:
+                raise oa.errors.InvalidOption(
+                    "Invalid compressed message: %s" % e)
+        return message.decode("utf8", "ignore")
 
     def get_and_handle(self):
         """Get data from the client and call the handle method."""
-- 
2.43.0


From 5a35d1aef847d7d52930e8b1804c676d66db8768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:17 +0000
Subject: [PATCH 067/138] fix: send the number of bytes of the response as its
 length

---
 oa/protocol/base.py  | 7 ++++++-
 oa/protocol/check.py | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/oa/protocol/base.py b/oa/protocol/base.py
index 6220210..44f29b2 100644
--- a/oa/protocol/base.py
+++ b/oa/protocol/base.py
@@ -103,7 +103,12 @@ class BaseProtocol(object):
         self.wfile.write(ok_line.encode("utf8"))
         for response in self.handle(message, options):
             self.log.debug("Writing response: %s", response)
-            self.wfile.write(response.encode("utf8"))
+            self.wfile.write(self.encode(response))
+
+    @staticmethod
+    def encode(response):
+        """Get the bytes to send to the client for this response."""
+        return response.encode("utf8", "replace")
 
     def handle(self, msg, options):
         """Perform the actual command and return a response for
diff --git a/oa/protocol/check.py b/oa/protocol/check.py
index 1664266..a5caf93 100644
--- a/oa/protocol/check.py
+++ b/oa/protocol/check.py
@@ -20,7 +20,7 @@ class CheckCommand(oa.protocol.base.BaseProtocol):
         yield "Spam: %s ; %.1f / %s\r\n" % (spam, msg.score,
                                             self.ruleset.conf["required_score"])
         result = "".join(self.extra_details(msg, options))
-        yield "Content-length: %s\r\n\r\n" % len(result)
+        yield "Content-length: %s\r\n\r\n" % len(self.encode(result))
         yield result
 
     def extra_details(self, msg, options):
-- 
2.43.0


From d11345e1f6f4fa12c9a731a761df070291f85cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:17 +0000
Subject: [PATCH 068/138] fix: do not report any KeyError of a command as a bad
 header line

---
 oa/server.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/oa/server.py b/oa/server.py
index b7b4419..5819f60 100644
--- a/oa/server.py
+++ b/oa/server.py
@@ -41,12 +41,14 @@ class RequestHandler(spoon.server.TCPGulp):
         line = self.rfile.readline().decode("utf8").strip()
         command, proto_version = line.split()
         try:
-            # Run the command handler
-            COMMANDS[command.upper()](self.rfile, self.wfile, self.server)
+            command_handler = COMMANDS[command.upper()]
         except KeyError:
             error_line = ("SPAMD/%s 76 Bad header line: %s\r\n" %
                           (oa.__version__, line))
             self.wfile.write(error_line.encode("utf8"))
+            return
+        # Run the command handler
+        command_handler(self.rfile, self.wfile, self.server)
 
 
 class Server(spoon.server.TCPSpoon):
-- 
2.43.0


From 49e7088086a863b14a10c636cef1bd3630a1dd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:26 +0000
Subject: [PATCH 069/138] fix: refuse a message shorter than its Content-Length

---
 oa/protocol/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/oa/protocol/base.py b/oa/protocol/base.py
index 44f29b2..2b0c983 100644
--- a/oa/protocol/base.py
+++ b/oa/protocol/base.py
@@ -71,6 +71,9 @@ class BaseProtocol(object):
             message_chunks.append(chunk)
             if content_length is not None:
                 content_length -= len(chunk)
+        if content_length:
+            raise oa.errors.InvalidOption(
+                "Content-Length mismatch: missing %s bytes" % content_length)
         # A character can be split between chunks so only decode the whole.
         message = b"".join(message_chunks)
         if options.get('compress', "").lower() == "zlib":
-- 
2.43.0


From 0cff56fd1843961321137aa265cf9d5a8425129a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:31 +0000
Subject: [PATCH 070/138] fix: reload the workers of a preforked daemon

---
 oa/server.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/oa/server.py b/oa/server.py
index 5819f60..b1b5403 100644
--- a/oa/server.py
+++ b/oa/server.py
@@ -121,3 +121,14 @@ class PreForkServer(Server, spoon.server.TCPSpork):
 
     The parent process will then wait for all his child process to complete.
     """
+
+    def load_config(self):
+        """Load the configuration. If this is the parent process, reload the
+        configuration of the workers as well.
+        """
+        super(PreForkServer, self).load_config()
+        for pid in self.pids or ():
+            try:
+                os.kill(pid, self.signal_reload)
+            except OSError as e:
+                self.log.warning("Unable to reload worker %s: %s", pid, e)
-- 
2.43.0


From 5f62f7307a17141ff0500e837b833e058c1899c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:31 +0000
Subject: [PATCH 071/138] fix: replace everything that was loaded at once when
 reloading

---
 oa/server.py | 64 +++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 43 insertions(+), 21 deletions(-)

diff --git a/oa/server.py b/oa/server.py
index b1b5403..cce5a05 100644
--- a/oa/server.py
+++ b/oa/server.py
@@ -5,6 +5,8 @@ from __future__ import absolute_import
 
 import os
 import copy
+import threading
+import collections
 
 import spoon.server
 
@@ -31,6 +33,13 @@ COMMANDS = {
 }
 
 
+# Everything that was loaded from the configuration files. This is replaced
+# as a whole when reloading.
+Config = collections.namedtuple("Config", [
+    "ruleset", "parser_results", "user_rulesets"
+])
+
+
 class RequestHandler(spoon.server.TCPGulp):
     """Handle a single request."""
 
@@ -62,25 +71,37 @@ class Server(spoon.server.TCPSpoon):
                  ignore_unknown=True):
         self.paranoid = paranoid
         self.ignore_unknown = ignore_unknown
-        self._ruleset = None
-        self._user_rulesets = {}
-        self._parser_results = None
+        self._config = Config(None, None, {})
+        self._load_lock = threading.Lock()
         self.sitepath = sitepath
         self.configpath = configpath
 
         super(Server, self).__init__(address)
 
+    @property
+    def _ruleset(self):
+        return self._config.ruleset
+
+    @property
+    def _parser_results(self):
+        return self._config.parser_results
+
+    @property
+    def _user_rulesets(self):
+        return self._config.user_rulesets
+
     def load_config(self):
         """Reads the configuration files and reloads the ruleset."""
-        self._user_rulesets.clear()
-        parser = oa.rules.parser.parse_pad_rules(
-            oa.config.get_config_files(self.configpath, self.sitepath),
-            paranoid=self.paranoid, ignore_unknown=self.ignore_unknown
-        )
-        self._ruleset = parser.get_ruleset()
-        # Store a copy of the parser results to generate user
-        # settings later
-        self._parser_results = parser.results
+        # Requests for reloading are handled in the order they are received.
+        with self._load_lock:
+            parser = oa.rules.parser.parse_pad_rules(
+                oa.config.get_config_files(self.configpath, self.sitepath),
+                paranoid=self.paranoid, ignore_unknown=self.ignore_unknown
+            )
+            ruleset = parser.get_ruleset()
+            # Store a copy of the parser results to generate user
+            # settings later
+            self._config = Config(ruleset, parser.results, {})
 
     def get_user_ruleset(self, user=None):
         """Get the corresponding ruleset for this user. If the
@@ -91,28 +112,29 @@ class Server(spoon.server.TCPSpoon):
           be returned.
         :return: a `oa.rules.ruleset.RuleSet` object
         """
-        if user is not None and self._ruleset.conf["allow_user_rules"]:
-            if user in self._user_rulesets:
-                return self._user_rulesets[user]
+        config = self._config
+        if user is not None and config.ruleset.conf["allow_user_rules"]:
+            if user in config.user_rulesets:
+                return config.user_rulesets[user]
 
             path = oa.config.get_userprefs_path(user)
             if not os.path.exists(path):
                 self.log.warn("No user preference file: %s", path)
-                return self._ruleset
+                return config.ruleset
             parser = oa.rules.parser.PADParser(
-                self._ruleset.ctxt.paranoid,
-                self._ruleset.ctxt.ignore_unknown
+                config.ruleset.ctxt.paranoid,
+                config.ruleset.ctxt.ignore_unknown
             )
             # Use the already parsed results and pass the user
             # ones.
-            parser.results = copy.deepcopy(self._parser_results)
+            parser.results = copy.deepcopy(config.parser_results)
             parser.parse_file(path)
             ruleset = parser.get_ruleset()
             ruleset.ctxt.username = user
             # Cache the result
-            self._user_rulesets[user] = ruleset
+            config.user_rulesets[user] = ruleset
             return ruleset
-        return self._ruleset
+        return config.ruleset
 
 
 class PreForkServer(Server, spoon.server.TCPSpork):
-- 
2.43.0


From b233507f7163a3eca70f559e4293c160c6eefbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:06 +0000
Subject: [PATCH 072/138] fix: apply the global options and plugins to users
 with preferences

---
 oa/rules/parser.py | 26 +++++++++++++++-----------
 oa/server.py       | 25 ++++++++++++++-----------
 2 files changed, 29 insertions(+), 22 deletions(-)

diff --git a/oa/rules/parser.py b/oa/rules/parser.py
index a7372e8..b1302db 100644
--- a/oa/rules/parser.py
+++ b/oa/rules/parser.py
@@ -105,6 +105,8 @@ class PADParser(object):
         # XXX This could be a default OrderedDict
         self.results = collections.OrderedDict()
         self.ruleset = oa.rules.ruleset.RuleSet(self.ctxt)
+        # The lines of every file that was parsed
+        self.sources = dict()
         self._ignore = False
         # How many conditionals were started while ignoring lines
         self._ignored_ifs = 0
@@ -124,17 +126,19 @@ class PADParser(object):
         if _depth > MAX_RECURSION:
             raise oa.errors.MaxRecursionDepthExceeded()
         self.ctxt.log.debug("Parsing file: %s", filename)
-        if not os.path.isfile(filename):
-            self.ctxt.log.warn("Ignoring %s, not a file", filename)
-            return
-        with open(filename, "rb") as rulef:
-            for line_no, line in enumerate(rulef):
-                try:
-                    with self._paranoid(oa.errors.InvalidSyntax):
-                        self._handle_line(filename, line, line_no + 1, _depth)
-                except oa.errors.PluginLoadError as e:
-                    warnings.warn(str(e))
-                    self.ctxt.log.warn("%s", e)
+        if filename not in self.sources:
+            if not os.path.isfile(filename):
+                self.ctxt.log.warn("Ignoring %s, not a file", filename)
+                return
+            with open(filename, "rb") as rulef:
+                self.sources[filename] = list(rulef)
+        for line_no, line in enumerate(self.sources[filename]):
+            try:
+                with self._paranoid(oa.errors.InvalidSyntax):
+                    self._handle_line(filename, line, line_no + 1, _depth)
+            except oa.errors.PluginLoadError as e:
+                warnings.warn(str(e))
+                self.ctxt.log.warn("%s", e)
         # A missing endif must not affect other files
         self._ignore = False
         self._ignored_ifs = 0
diff --git a/oa/server.py b/oa/server.py
index cce5a05..04bf29d 100644
--- a/oa/server.py
+++ b/oa/server.py
@@ -4,7 +4,6 @@ returns the result.
 from __future__ import absolute_import
 
 import os
-import copy
 import threading
 import collections
 
@@ -36,7 +35,7 @@ COMMANDS = {
 # Everything that was loaded from the configuration files. This is replaced
 # as a whole when reloading.
 Config = collections.namedtuple("Config", [
-    "ruleset", "parser_results", "user_rulesets"
+    "ruleset", "parser_results", "user_rulesets", "files", "sources"
 ])
 
 
@@ -71,7 +70,7 @@ class Server(spoon.server.TCPSpoon):
                  ignore_unknown=True):
         self.paranoid = paranoid
         self.ignore_unknown = ignore_unknown
-        self._config = Config(None, None, {})
+        self._config = Config(None, None, {}, [], {})
         self._load_lock = threading.Lock()
         self.sitepath = sitepath
         self.configpath = configpath
@@ -94,14 +93,16 @@ class Server(spoon.server.TCPSpoon):
         """Reads the configuration files and reloads the ruleset."""
         # Requests for reloading are handled in the order they are received.
         with self._load_lock:
+            files = list(
+                oa.config.get_config_files(self.configpath, self.sitepath))
             parser = oa.rules.parser.parse_pad_rules(
-                oa.config.get_config_files(self.configpath, self.sitepath),
-                paranoid=self.paranoid, ignore_unknown=self.ignore_unknown
+                files, paranoid=self.paranoid,
+                ignore_unknown=self.ignore_unknown
             )
             ruleset = parser.get_ruleset()
-            # Store a copy of the parser results to generate user
-            # settings later
-            self._config = Config(ruleset, parser.results, {})
+            # Store what was parsed to generate user settings later
+            self._config = Config(ruleset, parser.results, {}, files,
+                                  dict(parser.sources))
 
     def get_user_ruleset(self, user=None):
         """Get the corresponding ruleset for this user. If the
@@ -125,9 +126,11 @@ class Server(spoon.server.TCPSpoon):
                 config.ruleset.ctxt.paranoid,
                 config.ruleset.ctxt.ignore_unknown
             )
-            # Use the already parsed results and pass the user
-            # ones.
-            parser.results = copy.deepcopy(config.parser_results)
+            # Use the same lines as the main ruleset, the plugins and the
+            # options apply to the user as well, and then the user ones.
+            parser.sources = dict(config.sources)
+            for filename in config.files:
+                parser.parse_file(filename)
             parser.parse_file(path)
             ruleset = parser.get_ruleset()
             ruleset.ctxt.username = user
-- 
2.43.0


From 6167caccc53c9620f02f24e8185f1104c2ad8023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:06 +0000
Subject: [PATCH 073/138] fix: do not use the User header as a path

---
 oa/server.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/oa/server.py b/oa/server.py
index 04bf29d..f89ab06 100644
--- a/oa/server.py
+++ b/oa/server.py
@@ -118,6 +118,9 @@ class Server(spoon.server.TCPSpoon):
             if user in config.user_rulesets:
                 return config.user_rulesets[user]
 
+            if user in ("", ".", "..") or os.path.basename(user) != user:
+                self.log.warn("Invalid user name: %r", user)
+                return config.ruleset
             path = oa.config.get_userprefs_path(user)
             if not os.path.exists(path):
                 self.log.warn("No user preference file: %s", path)
-- 
2.43.0


From 2d0b665578564e5e995a7bdf3650b73ba309216e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:07 +0000
Subject: [PATCH 074/138] fix: load the plugin of a path in a module of its own

---
 oa/context.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/oa/context.py b/oa/context.py
index 547bbde..46e79f0 100644
--- a/oa/context.py
+++ b/oa/context.py
@@ -281,10 +281,20 @@ class GlobalContext(_Context):
     @staticmethod
     def _load_module_py3(path):
         """Load module in Python 3."""
-        modulename = os.path.basename(path).rstrip(".py").rstrip(".pyc")
+        modulename = os.path.splitext(os.path.basename(path))[0]
 
-        loader = importlib.machinery.SourceFileLoader(modulename, path)
-        return loader.load_module()
+        # Execute it in a module of its own: the loader would otherwise
+        # reuse a module with the same name, which can be one that has
+        # nothing to do with this file, or the one that the plugins loaded
+        # from this file earlier are still using.
+        previous = sys.modules.pop(modulename, None)
+        try:
+            loader = importlib.machinery.SourceFileLoader(modulename, path)
+            return loader.load_module()
+        finally:
+            if (previous is not None and
+                    getattr(previous, "__file__", None) != path):
+                sys.modules[modulename] = previous
 
     @staticmethod
     def _load_module_py2(path):
-- 
2.43.0


From 0c49da3b3913ab1b7e3ceeb560598a254bb0dba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:41 +0000
Subject: [PATCH 075/138] fix: keep the rules redefined by another plugin when
 unloading a plugin

---
 oa/context.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/oa/context.py b/oa/context.py
index 46e79f0..cb6efd8 100644
--- a/oa/context.py
+++ b/oa/context.py
@@ -270,13 +270,20 @@ class GlobalContext(_Context):
             raise oa.errors.PluginLoadError("Plugin %s not loaded." % name)
 
         plugin = self.plugins[name]
-        # Delete any defined rules
+        del self.plugins[name]
+        self.pop_plugin_data(name)
+        # Delete any defined rules, except for those that another plugin
+        # has redefined.
         for rule in plugin.eval_rules:
-            self.eval_rules.pop(rule, None)
+            if not any(rule in other.eval_rules and
+                       getattr(other, rule) == self.eval_rules.get(rule)
+                       for other in self.plugins.values()):
+                self.eval_rules.pop(rule, None)
         for rule_type in plugin.cmds or ():
-            self.cmds.pop(rule_type, None)
-        self.pop_plugin_data(name)
-        del self.plugins[name]
+            if not any((other.cmds or {}).get(rule_type) ==
+                       self.cmds.get(rule_type)
+                       for other in self.plugins.values()):
+                self.cmds.pop(rule_type, None)
 
     @staticmethod
     def _load_module_py3(path):
-- 
2.43.0


From 737c48f1e06e2e1e5bd60fd1a8c4d21846691943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:41 +0000
Subject: [PATCH 076/138] fix: read the message files of the match tool as
 bytes

---
 scripts/match.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/match.py b/scripts/match.py
index 9aaaada..9b4a2a6 100755
--- a/scripts/match.py
+++ b/scripts/match.py
@@ -97,7 +97,7 @@ def parse_arguments(args):
     parser.add_argument("-R", "--report-only", action="store_true",
                         default=False, help="Only print the report instead of "
                                             "the adjusted message.")
-    parser.add_argument("messages", type=MessageList(), nargs="*",
+    parser.add_argument("messages", type=MessageList("rb"), nargs="*",
                         metavar="path", help="Paths to messages or "
                                              "directories containing messages",
                         default=[[get_binary_stdin()]])
-- 
2.43.0


From 823226880b2743a41a975159462351aed9c42eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:41 +0000
Subject: [PATCH 077/138] fix: count every message of a directory as examined

---
 scripts/match.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/match.py b/scripts/match.py
index 9b4a2a6..734b4d9 100755
--- a/scripts/match.py
+++ b/scripts/match.py
@@ -171,7 +171,7 @@ def main():
                 print(ruleset.get_adjusted_message(msg))
                 if options.test_mode:
                     print(ruleset.get_report(msg))
-        count += 1
+            count += 1
     if options.revoke or options.report:
         print("%s message(s) examined" % count)
 
-- 
2.43.0


From c18c53eb8e8fddee697eb63813bc9f7dc0af256c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:41 +0000
Subject: [PATCH 078/138] fix: report an eval rule that a plugin does not have
 as a load error

---
 oa/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/context.py b/oa/context.py
index cb6efd8..b2e486d 100644
--- a/oa/context.py
+++ b/oa/context.py
@@ -240,7 +240,7 @@ class GlobalContext(_Context):
             self.log.debug("Registering eval rule: %s.%s", class_name, rule)
             if rule in self.eval_rules:
                 self.log.warning("Redefining eval rule: %s", rule)
-            eval_rule = getattr(plugin, rule)
+            eval_rule = getattr(plugin, rule, None)
             if eval_rule is None:
                 raise oa.errors.PluginLoadError("Undefined eval rule %s in "
                                                  "%s" % (rule, class_name))
-- 
2.43.0


From a2e63188a409ae2314ad276df4c8f61a18cb1170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:10 +0000
Subject: [PATCH 079/138] fix: apply only the last short-circuit type of a rule

---
 oa/plugins/short_circuit.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/oa/plugins/short_circuit.py b/oa/plugins/short_circuit.py
index e72a95f..e10983b 100644
--- a/oa/plugins/short_circuit.py
+++ b/oa/plugins/short_circuit.py
@@ -3,7 +3,7 @@ Short-circuiting a test will force all other pending rules to be
 skipped, if that test is hit.
 """
 
-import functools
+import collections
 
 import oa.errors
 import oa.plugins.base
@@ -86,6 +86,8 @@ class ShortCircuit(oa.plugins.base.BasePlugin):
         configuration and shortcircuit them.
         """
         super(ShortCircuit, self).finish_parsing_end(ruleset)
+        # The last type that is configured for a rule is the one that counts
+        short_circuits = collections.OrderedDict()
         for config in self["shortcircuit"]:
             try:
                 rule_name, stype = config.split(None, 1)
@@ -98,12 +100,15 @@ class ShortCircuit(oa.plugins.base.BasePlugin):
                 self.ctxt.err("Unknown rule: %s", rule_name)
                 continue
 
+            if stype not in ("on", "off", "ham", "spam"):
+                self.ctxt.err("Invalid short circuit type: %s" % stype)
+                continue
+            short_circuits[rule_name] = rule, stype
+
+        for rule, stype in short_circuits.values():
             # Nothing to do here.
             if stype == "off":
                 continue
-            if stype not in ("on", "ham", "spam"):
-                self.ctxt.err("Invalid short circuit type: %s" % stype)
-                continue
             self.ctxt.log.debug("Short-circuiting rule: %s (%s)",
                                 rule.name, stype)
             new_method = self.get_wrapped_method(rule, stype)
-- 
2.43.0


From c7cd67c22b05d5e91ffa4d5460c0e67234350e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:16 +0000
Subject: [PATCH 080/138] fix: learn messages below the threshold as ham

---
 oa/plugins/auto_learn_threshold.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/plugins/auto_learn_threshold.py b/oa/plugins/auto_learn_threshold.py
index 3039752..b1399a4 100644
--- a/oa/plugins/auto_learn_threshold.py
+++ b/oa/plugins/auto_learn_threshold.py
@@ -170,5 +170,5 @@ class AutoLearnThreshold(oa.plugins.base.BasePlugin):
         if self.should_learn(msg) and bayes is not None:
             if self.get_local(msg, "learner_thinks_spam"):
                 bayes.plugin_report(msg)
-            elif self.get_local(msg, "learner_thinks_spam"):
+            elif self.get_local(msg, "learner_thinks_ham"):
                 bayes.plugin_revoke(msg)
-- 
2.43.0


From cbe40da33cdf30d22bce127d5ccde2665e3bdc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:16 +0000
Subject: [PATCH 081/138] fix: decide what to learn by the rules that matched
 the message

---
 oa/plugins/auto_learn_threshold.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/oa/plugins/auto_learn_threshold.py b/oa/plugins/auto_learn_threshold.py
index b1399a4..ae8d303 100644
--- a/oa/plugins/auto_learn_threshold.py
+++ b/oa/plugins/auto_learn_threshold.py
@@ -166,7 +166,10 @@ class AutoLearnThreshold(oa.plugins.base.BasePlugin):
         and submits it
         """
         bayes = self.ctxt.plugins.get("BayesPlugin", None)
-        self.prepare_learning_metadata(msg, tests=ruleset.checked)
+        # Only the rules that matched this message are relevant
+        tests = dict((name, rule) for name, rule in ruleset.checked.items()
+                     if msg.rules_checked.get(name))
+        self.prepare_learning_metadata(msg, tests=tests)
         if self.should_learn(msg) and bayes is not None:
             if self.get_local(msg, "learner_thinks_spam"):
                 bayes.plugin_report(msg)
-- 
2.43.0


From 5f0a14ab9615763078fda5358ac4cb2de9f09b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:20 +0000
Subject: [PATCH 082/138] fix: remember the messages that Bayes has learned

Reading the flag of a message that was never seen failed, the flag of a new
message was never inserted and deleting a flag took an extra argument.
---
 oa/db/bayes/mysql.py      |  8 +++++---
 oa/db/bayes/sqlalchemy.py | 18 ++++++++++++------
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/oa/db/bayes/mysql.py b/oa/db/bayes/mysql.py
index acd0324..92a893d 100644
--- a/oa/db/bayes/mysql.py
+++ b/oa/db/bayes/mysql.py
@@ -57,9 +57,9 @@ class Store(object):
         cursor = self.conn.cursor()
         cursor.execute("SELECT flag FROM bayes_seen WHERE msgid=%s",
                        (msgid,))
-        result = cursor.fetchone()[0]
+        result = cursor.fetchone()
         cursor.close()
-        return result
+        return result[0] if result else None
 
     def seen_delete(self, msgid):
         cursor = self.conn.cursor()
@@ -67,13 +67,15 @@ class Store(object):
             "DELETE FROM bayes_seen WHERE msgid = %s",
             (msgid,)
         )
+        self.conn.commit()
         cursor.close()
 
     def seen_put(self, msgid, flag):
         """Set the "seen" flag for the specified message."""
         cursor = self.conn.cursor()
         cursor.execute(
-            "UPDATE bayes_seen SET flag=%s WHERE msgid=%s", (flag, msgid)
+            "REPLACE INTO bayes_seen (id, msgid, flag) VALUES (0, %s, %s)",
+            (msgid, flag)
         )
         self.conn.commit()
         cursor.close()
diff --git a/oa/db/bayes/sqlalchemy.py b/oa/db/bayes/sqlalchemy.py
index 567a655..c1372a6 100644
--- a/oa/db/bayes/sqlalchemy.py
+++ b/oa/db/bayes/sqlalchemy.py
@@ -131,21 +131,27 @@ class Store(object):
 
     def seen_get(self, msgid):
         """Get the "seen" flag for the specified message."""
-        return self.conn.execute(
+        result = self.conn.execute(
             "SELECT flag FROM bayes_seen WHERE msgid=:msgid",
-            {'msgid': msgid}).fetchone()[0]
+            {'msgid': msgid}).fetchone()
+        return result[0] if result else None
 
-    def seen_delete(self, id, msgid):
+    def seen_delete(self, msgid):
         self.conn.execute(
             "DELETE FROM bayes_seen WHERE msgid = :msgid",
             {"msgid": msgid}
         )
+        self.conn.commit()
 
     def seen_put(self, msgid, flag):
         """Set the "seen" flag for the specified message."""
-        self.conn.execute(
-            "UPDATE bayes_seen SET flag=:flag WHERE msgid=:msgid",
-            {"flag": flag, "msgid": msgid})
+        values = {"flag": flag, "msgid": msgid}
+        result = self.conn.execute(
+            "UPDATE bayes_seen SET flag=:flag WHERE msgid=:msgid", values)
+        if not result.rowcount:
+            self.conn.execute(
+                "INSERT INTO bayes_seen (id, msgid, flag) "
+                "VALUES (0, :msgid, :flag)", values)
         self.conn.commit()
 
     def cleanup(self):
-- 
2.43.0


From 8bc150c33641c579ddb6e059cdac80875453be0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:20 +0000
Subject: [PATCH 083/138] fix: add to the Bayes counts instead of replacing
 them

The changes of the counts were stored as the counts, tokens that were not yet
known were never stored, and the tokens were looked up by the pair of their
hash and text.
---
 oa/db/bayes/mysql.py      | 25 ++++++++++++++++--------
 oa/db/bayes/sqlalchemy.py | 41 +++++++++++++++++++++++++++------------
 oa/plugins/bayes.py       |  4 ++--
 3 files changed, 48 insertions(+), 22 deletions(-)

diff --git a/oa/db/bayes/mysql.py b/oa/db/bayes/mysql.py
index 92a893d..d2ffede 100644
--- a/oa/db/bayes/mysql.py
+++ b/oa/db/bayes/mysql.py
@@ -92,24 +92,33 @@ class Store(object):
         )
         result = cursor.fetchone()
         cursor.close()
-        return result
+        return result or (0, 0)
 
     def nspam_nham_change(self, spam, ham):
-        """Set the spam and ham counts for the database."""
+        """Change the spam and ham counts for the database by the specified
+        amounts."""
+        nspam, nham = self.nspam_nham_get()
         cursor = self.conn.cursor()
-        cursor.execute("UPDATE bayes_vars SET spam_count=%s, ham_count=%s",
-                       (spam, ham))
+        cursor.execute("INSERT INTO bayes_vars "
+                       "(username, spam_count, ham_count) VALUES ('', %s, %s) "
+                       "ON DUPLICATE KEY UPDATE "
+                       "spam_count=VALUES(spam_count), "
+                       "ham_count=VALUES(ham_count)",
+                       (max(nspam + spam, 0), max(nham + ham, 0)))
         self.conn.commit()
         cursor.close()
 
     def multi_tok_count_change(self, spam, ham, tokens, msgatime):
-        """Update the spam and ham counts, and access time for the specified tokens."""
+        """Change the spam and ham counts by the specified amounts, and update
+        the access time for the specified tokens."""
         cursor = self.conn.cursor()
         for token in tokens:
+            nspam, nham = (self.tok_get(token) or (0, 0))[:2]
             cursor.execute(
-                "UPDATE bayes_token "
-                "SET spam_count=%s, ham_count=%s, atime=%s "
-                "WHERE token=%s", (spam, ham, msgatime, token))
+                "REPLACE INTO bayes_token "
+                "(id, token, spam_count, ham_count, atime) "
+                "VALUES (0, %s, %s, %s, %s)",
+                (token, max(nspam + spam, 0), max(nham + ham, 0), msgatime))
         self.conn.commit()
         cursor.close()
 
diff --git a/oa/db/bayes/sqlalchemy.py b/oa/db/bayes/sqlalchemy.py
index c1372a6..f3c903f 100644
--- a/oa/db/bayes/sqlalchemy.py
+++ b/oa/db/bayes/sqlalchemy.py
@@ -162,29 +162,46 @@ class Store(object):
         """Get the spam and ham counts for the database."""
         return self.conn.execute(
             "SELECT spam_count, ham_count FROM bayes_vars LIMIT 1"
-        ).fetchone()
+        ).fetchone() or (0, 0)
 
     def nspam_nham_change(self, spam, ham):
-        """Set the spam and ham counts for the database."""
-        self.conn.execute(
+        """Change the spam and ham counts for the database by the specified
+        amounts."""
+        nspam, nham = self.nspam_nham_get()
+        values = {'spam_count': max(nspam + spam, 0),
+                  'ham_count': max(nham + ham, 0)}
+        result = self.conn.execute(
             "UPDATE bayes_vars "
-            "SET spam_count=:spam_count, ham_count=:ham_count",
-            {'spam_count': spam, 'ham_count': ham}
+            "SET spam_count=:spam_count, ham_count=:ham_count", values
         )
+        if not result.rowcount:
+            self.conn.execute(
+                "INSERT INTO bayes_vars (username, spam_count, ham_count) "
+                "VALUES ('', :spam_count, :ham_count)", values
+            )
         self.conn.commit()
 
     def multi_tok_count_change(self, spam, ham, tokens, msgatime):
-        """Update the spam and ham counts, and access time for the specified tokens."""
+        """Change the spam and ham counts by the specified amounts, and update
+        the access time for the specified tokens."""
         for token in tokens:
-            self.conn.execute(
+            nspam, nham = (self.tok_get(token) or (0, 0))[:2]
+            values = {
+                'spam_count': max(nspam + spam, 0),
+                'ham_count': max(nham + ham, 0),
+                'atime': msgatime, 'token': token
+            }
+            result = self.conn.execute(
                 "UPDATE bayes_token "
                 "SET spam_count=:spam_count, ham_count=:ham_count, "
-                "atime=:atime WHERE token=:token",
-                {
-                    'spam_count': spam, 'ham_count': ham,
-                    'atime': msgatime, 'token': token
-                }
+                "atime=:atime WHERE token=:token", values
             )
+            if not result.rowcount:
+                self.conn.execute(
+                    "INSERT INTO bayes_token "
+                    "(id, token, spam_count, ham_count, atime) VALUES "
+                    "(0, :token, :spam_count, :ham_count, :atime)", values
+                )
         self.conn.commit()
 
     def tok_touch_all(self, touch_tokens, msgatime):
diff --git a/oa/plugins/bayes.py b/oa/plugins/bayes.py
index 630cc2a..141fc1e 100644
--- a/oa/plugins/bayes.py
+++ b/oa/plugins/bayes.py
@@ -675,7 +675,7 @@ class BayesPlugin(oa.plugins.base.BasePlugin):
         # a safety measure.
         if msgatime - time.time() > 86400:
             msgatime = time.time()
-        tokens = self.tokenise(msg)
+        tokens = set(token for token, _ in self.tokenise(msg))
         # XXX SA puts this in a timer.
         if isspam:
             self.store.nspam_nham_change(1, 0)
@@ -723,7 +723,7 @@ class BayesPlugin(oa.plugins.base.BasePlugin):
             self.ctxt.log.debug("bayes: forget: msgid %s not learnt, ignored",
                                 msgid)
             return False
-        tokens = self.tokenise(msg)
+        tokens = set(token for token, _ in self.tokenise(msg))
         if isspam:
             self.store.nspam_nham_change(-1, 0)
             self.store.multi_tok_count_change(-1, 0, tokens, msg.receive_date)
-- 
2.43.0


From d1c6c886e0407c64f91ddb7f35e6add38e4084ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:20 +0000
Subject: [PATCH 084/138] fix: keep the text that Bayes learns with its message

The text was kept by the plugin, so learning or scanning a message after
another one was parsed used the text of the other message.
---
 oa/plugins/bayes.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/oa/plugins/bayes.py b/oa/plugins/bayes.py
index 141fc1e..82815eb 100644
--- a/oa/plugins/bayes.py
+++ b/oa/plugins/bayes.py
@@ -504,26 +504,28 @@ class BayesPlugin(oa.plugins.base.BasePlugin):
         self.set_local(msg, 'bayes_token_info_hammy', [])
         self.set_local(msg, 'bayes_token_info_spammy', [])
         self.set_local(msg, 'count', 0)
-        self['rendered'] = [msg.msg['subject'] or '\n']
-        self['visible_rendered'] = [msg.msg['subject'] or '\n']
-        self['invisible_rendered'] = []
+        self.set_local(msg, 'rendered', [msg.msg['subject'] or '\n'])
+        self.set_local(msg, 'visible_rendered', [msg.msg['subject'] or '\n'])
+        self.set_local(msg, 'invisible_rendered', [])
 
     def extract_metadata(self, msg, payload, text, part):
         if part.get_content_type() == 'text/plain':
-            self['rendered'].append(text)
-            self['visible_rendered'].append(text)
+            self.get_local(msg, 'rendered').append(text)
+            self.get_local(msg, 'visible_rendered').append(text)
         if part.get_content_type() == 'text/html':
             # XXX SA parses these and checks for [in]visible content
             pass
 
     def parsed_metadata(self, msg):
-        self.ctxt.log.debug("rendered body %s", self['rendered'])
-        self.ctxt.log.debug("invisible body %s", self['invisible_rendered'])
-        self['rendered'] = "\n".join(self['rendered'])
-        self['invisible_rendered'] = "\n".join(self['invisible_rendered'])
-        self[u"bayes_token_body"] = self.get_body_text_array_common(self["rendered"])
-        self[u'bayes_token_inviz'] = self.get_body_text_array_common(self["invisible_rendered"])
-        self[u'bayes_token_uris'] = []  # self.get_uri_list()
+        rendered = "\n".join(self.get_local(msg, 'rendered'))
+        invisible = "\n".join(self.get_local(msg, 'invisible_rendered'))
+        self.ctxt.log.debug("rendered body %s", rendered)
+        self.ctxt.log.debug("invisible body %s", invisible)
+        self.set_local(msg, u"bayes_token_body",
+                       self.get_body_text_array_common(rendered))
+        self.set_local(msg, u'bayes_token_inviz',
+                       self.get_body_text_array_common(invisible))
+        self.set_local(msg, u'bayes_token_uris', [])  # self.get_uri_list()
 
     def finish_parsing_end(self, ruleset):
         super(BayesPlugin, self).finish_parsing_end(ruleset)
@@ -765,11 +767,11 @@ class BayesPlugin(oa.plugins.base.BasePlugin):
     def tokenise(self, msg):
         """Convert the message to a sequence of tokens."""
         tokens = []
-        for line in self["bayes_token_body"]:
+        for line in self.get_local(msg, "bayes_token_body"):
             tokens.extend(self._tokenise_line(line, "", 1))
-        for line in self['bayes_token_uris']:
+        for line in self.get_local(msg, 'bayes_token_uris'):
             tokens.extend(self._tokenise_line(line, "", 2))
-        for line in self['bayes_token_inviz']:
+        for line in self.get_local(msg, 'bayes_token_inviz'):
             if ADD_INVIZ_TOKENS_I_PREFIX:
                 tokens.extend(self._tokenise_line(line, "I*:", 1))
             if ADD_INVIZ_TOKENS_NO_PREFIX:
-- 
2.43.0


From f809fab635ed3596c4a1e2ffd59b5a1b49e9a969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:20 +0000
Subject: [PATCH 085/138] fix: end splitting a host name into its domains

The loop never ended for a body with a word like a.com, and learning a word
like a@example.com failed.
---
 oa/plugins/bayes.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/oa/plugins/bayes.py b/oa/plugins/bayes.py
index 82815eb..ee36b62 100644
--- a/oa/plugins/bayes.py
+++ b/oa/plugins/bayes.py
@@ -847,15 +847,14 @@ class BayesPlugin(oa.plugins.base.BasePlugin):
             # Are we in the body? If so, apply some body-specific breakouts.
             if region in (1, 2):
                 if CHEW_BODY_MAILADDRS and re.match(r"\S\@\S", token):
-                    rettokens.add(self._tokenise_mail_addrs(token))
+                    rettokens.update(self._tokenise_mail_addrs(token))
                 elif CHEW_BODY_URIS and re.match(r"\S\.[a-z]", token, re.I):
                     rettokens.add(u"UD:" + token)  # The full token.
-                    bit = token
-                    while True:
-                        bit = re.sub(r"^[^\.]+\.(.+)$", "\1", bit)
-                        if not bit:
-                            break
+                    bit = re.match(r"^[^\.]+\.(.+)$", token)
+                    while bit:
+                        bit = bit.group(1)
                         rettokens.add("UD:" + bit)  # UD = URL domain
+                        bit = re.match(r"^[^\.]+\.(.+)$", bit)
 
             # Note: do not trim down overlong tokens if they contain '*'.
             # This is used as part of split tokens such as "HTo:D*net"
-- 
2.43.0


From 113d3696c49516de311b33ed643c1adae4a2bed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:20 +0000
Subject: [PATCH 086/138] fix: give every token its own probability

A known token without a probability (one that was forgotten, or seen only once
without hapaxes) shifted the probabilities of all tokens after it, and
scanning failed while there was no spam or no ham.
---
 oa/plugins/bayes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oa/plugins/bayes.py b/oa/plugins/bayes.py
index ee36b62..9e9e398 100644
--- a/oa/plugins/bayes.py
+++ b/oa/plugins/bayes.py
@@ -1092,7 +1092,7 @@ class BayesPlugin(oa.plugins.base.BasePlugin):
         """Compute the probability that a token is spammy for each
         token."""
         if not ns or not nn:
-            return
+            return [None] * len(tokensdata)
 
         # Ignore low-freq tokens below this s+n threshold.
         threshold = 1
@@ -1155,7 +1155,7 @@ class BayesPlugin(oa.plugins.base.BasePlugin):
         # XXX This has a timer in SA.
         msgtokens = dict(t for t in self.tokenise(msg))
         tokensdata = list(d for d in self.store.tok_get_all(msgtokens) if d is not None)
-        probabilities_ref = (ref for ref in self._compute_prob_for_all_tokens(tokensdata, ns, nn) if ref is not None)
+        probabilities_ref = self._compute_prob_for_all_tokens(tokensdata, ns, nn)
         pw = {}
         for tokendata, prob in zip(tokensdata, probabilities_ref):
             if prob is None:
-- 
2.43.0


From 79653f477f0375dcf29ddf605be8ab13fcb1b663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:20 +0000
Subject: [PATCH 087/138] fix: combine the most significant tokens of a message

The least significant ones were used for messages with many known tokens.
---
 oa/plugins/bayes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/plugins/bayes.py b/oa/plugins/bayes.py
index 9e9e398..6dd5acb 100644
--- a/oa/plugins/bayes.py
+++ b/oa/plugins/bayes.py
@@ -1195,7 +1195,7 @@ class BayesPlugin(oa.plugins.base.BasePlugin):
         # Robinson's formula.
         pw_keys = pw.keys()
         # XXX This is really inefficient.
-        pw_keys = sorted(pw_keys, key=tok_strength.get)
+        pw_keys = sorted(pw_keys, key=tok_strength.get, reverse=True)
         # pw_keys.sort(cmp=lambda a, b: tok_strength(b) > tok_strength(a))
         pw_keys = pw_keys[:N_SIGNIFICANT_TOKENS]
 
-- 
2.43.0


From 613ea8ed1b8bd50bd3cc07303b25b3c3284e7102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:20 +0000
Subject: [PATCH 088/138] fix: include a Bayes score of zero in the lowest
 range

---
 oa/plugins/bayes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oa/plugins/bayes.py b/oa/plugins/bayes.py
index 6dd5acb..0ee8236 100644
--- a/oa/plugins/bayes.py
+++ b/oa/plugins/bayes.py
@@ -1072,7 +1072,9 @@ class BayesPlugin(oa.plugins.base.BasePlugin):
         # XXX SA has a timer here.
         bayes_score = self.scan(msg)
         self.set_local(msg, 'bayes_score', bayes_score)
-        if bayes_score and (min_score < bayes_score <= max_score):
+        if bayes_score is not None and (
+                min_score < bayes_score <= max_score or
+                min_score == bayes_score == 0):
 
             # TODO: Find test_log implementation.
             if self["detailed_bayes_score"]:
-- 
2.43.0


From b010e6a23e2c13bb4e415f40c60064c3eff64416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:27 +0000
Subject: [PATCH 089/138] fix: skip invalid dates when looking for the receive
 date

---
 oa/message.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/oa/message.py b/oa/message.py
index bdb8588..3d49658 100644
--- a/oa/message.py
+++ b/oa/message.py
@@ -640,8 +640,11 @@ class Message(oa.context.MessageContext):
                 ts = header.rsplit(";", 1)[1]
             except IndexError:
                 continue
-            ts = email.utils.parsedate(ts)
-            return calendar.timegm(ts)
+            try:
+                return calendar.timegm(email.utils.parsedate(ts))
+            except (TypeError, ValueError, OverflowError):
+                # Not a valid date
+                continue
         # SA will look in other headers too. Perhaps we should also?
         return time.time()
 
-- 
2.43.0


From 26b627f7309fbd81c9482910b17b74a2c2ae7a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:27 +0000
Subject: [PATCH 090/138] fix: generate an ID for messages without headers

---
 oa/message.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/message.py b/oa/message.py
index 3d49658..8d0173b 100644
--- a/oa/message.py
+++ b/oa/message.py
@@ -615,7 +615,7 @@ class Message(oa.context.MessageContext):
         # Use the hexdigest of a SHA1 hash of (Date: and top N bytes of
         # body), where N is min(1024 bytes, 1/2 of body length).
         date = self.msg[u"Date"] or u"None"
-        body = self.msg.as_string().split("\n\n", 1)[1]
+        body = re.split(r"(?:^|\n)\n", self.msg.as_string(), 1)[1]
         if len(body) > 64:
             keep = 1024 if len(body) > 2048 else (len(body) // 2)
             body = body[:keep]
-- 
2.43.0


From febacc46f4554f52a8355abaacc8ba979f6b45cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:43 +0000
Subject: [PATCH 091/138] fix: use SQLAlchemy for the auto-whitelist when it is
 installed

The module that was imported does not exist in SQLAlchemy 1.4, so the class of
the table was missing and every look-up failed.
---
 oa/plugins/awl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/plugins/awl.py b/oa/plugins/awl.py
index 008d3d8..7056640 100644
--- a/oa/plugins/awl.py
+++ b/oa/plugins/awl.py
@@ -30,7 +30,7 @@ try:
     from sqlalchemy.types import String
     from sqlalchemy.types import Integer
     from sqlalchemy.sql.schema import PrimaryKeyConstraint
-    from sqlalchemy.ext.declarative.api import declarative_base
+    from sqlalchemy.ext.declarative import declarative_base
 
     Base = declarative_base()
     has_sqlalchemy = True
-- 
2.43.0


From c9e7aac80f8014e853d1f92cb5b0b7b6e41a1038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:43 +0000
Subject: [PATCH 092/138] fix: adjust the score to a history with a mean of
 zero

---
 oa/plugins/awl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oa/plugins/awl.py b/oa/plugins/awl.py
index 7056640..c2af6aa 100644
--- a/oa/plugins/awl.py
+++ b/oa/plugins/awl.py
@@ -241,7 +241,7 @@ class AutoWhiteListPlugin(oa.plugins.base.BasePlugin):
             mean = None
 
 
-        if mean:
+        if mean is not None:
             delta = mean - score
             delta *= factor
             msg.plugin_tags["AWL"] = "%2.1f" % delta
@@ -291,7 +291,7 @@ class AutoWhiteListPlugin(oa.plugins.base.BasePlugin):
             mean = None
 
 
-        if mean:
+        if mean is not None:
             delta = mean - score
             delta *= factor
             msg.plugin_tags["AWL"] = "%2.1f" % delta
-- 
2.43.0


From ea13eac10ca366a4f29d07d1e586cd2b9127d447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:43 +0000
Subject: [PATCH 093/138] fix: move the history without a network instead of
 copying it

The row was copied for the first network of the sender and kept, so its
messages were counted twice, and again for the next network.
---
 oa/plugins/awl.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/oa/plugins/awl.py b/oa/plugins/awl.py
index c2af6aa..3b932c2 100644
--- a/oa/plugins/awl.py
+++ b/oa/plugins/awl.py
@@ -209,7 +209,10 @@ class AutoWhiteListPlugin(oa.plugins.base.BasePlugin):
                     AWL.signedby == signed_by,
                     AWL.ip == "none").first()
             if result:
+                # The history now belongs to this network
                 result.ip = ip
+                session.commit()
+                session.refresh(result)
 
         session.close()
 
-- 
2.43.0


From 8ba38b61e6559678c66eee261387d5489715bf78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:44 +0000
Subject: [PATCH 094/138] fix: read and update only the history of the sender
 of the message

The MySQL statements had no conditions: they used the first history and
updated all of them.
---
 oa/plugins/awl.py | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/oa/plugins/awl.py b/oa/plugins/awl.py
index 3b932c2..9a7e6b2 100644
--- a/oa/plugins/awl.py
+++ b/oa/plugins/awl.py
@@ -170,20 +170,14 @@ class AutoWhiteListPlugin(oa.plugins.base.BasePlugin):
         cursor.execute("SELECT * FROM awl WHERE username=%s AND email=%s AND "
                        "signedby=%s AND ip=%s",
                        (self.ctxt.username, address, signed_by, ip))
-        try:
-            result = cursor.fetchall()
-            if result:
-                result = result[0]
-        except pymysql.DatabaseError:
+        result = cursor.fetchone()
+        if not result:
+            # A history without a network now belongs to this one
             result = cursor.execute(
-                "SELECT * FROM awl WHERE username=%s AND email=%s AND "
+                "UPDATE awl SET ip=%s WHERE username=%s AND email=%s AND "
                 "signedby=%s AND ip=%s",
-                (self.ctxt.username, address, signed_by, "none"))
-
-            if result:
-                result = cursor.execute(
-                    "UPDATE awl SET ip=%s", (ip))
-                conn.commit()
+                (ip, self.ctxt.username, address, signed_by, "none"))
+            conn.commit()
         if not result:
             result = cursor.execute(
                 "INSERT INTO awl VALUES (%s, %s, %s, %s, %s, %s) ",
@@ -270,8 +264,11 @@ class AutoWhiteListPlugin(oa.plugins.base.BasePlugin):
                                    db=self.engine["db_name"],
                                    )
 
+            key = (self.ctxt.username, addr, signed_by,
+                   self.ip_to_awl_key(origin_ip) if origin_ip else "none")
             cursor = conn.cursor()
-            cursor.execute("SELECT totscore, count FROM awl")
+            cursor.execute("SELECT totscore, count FROM awl WHERE username=%s "
+                           "AND email=%s AND signedby=%s AND ip=%s", key)
             entry_totscore, entry_count = cursor.fetchall()[0]
 
         except pymysql.Error:
@@ -309,8 +306,9 @@ class AutoWhiteListPlugin(oa.plugins.base.BasePlugin):
 
         try:
             result = cursor.execute(
-                "UPDATE awl SET count=%s, totscore=%s",
-                (entry_count, entry_totscore))
+                "UPDATE awl SET count=%s, totscore=%s WHERE username=%s "
+                "AND email=%s AND signedby=%s AND ip=%s",
+                (entry_count, entry_totscore) + key)
         except pymysql.Error:
             return False
 
-- 
2.43.0


From 036c761d9b4e2a303ded12f79e830f0151079db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:19 +0000
Subject: [PATCH 095/138] fix: treat queries for invalid names as failed

---
 oa/dns_interface.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/oa/dns_interface.py b/oa/dns_interface.py
index 5ebca20..16e64af 100644
--- a/oa/dns_interface.py
+++ b/oa/dns_interface.py
@@ -182,9 +182,9 @@ class DNSInterface(object):
 
     def _query(self, qname, qtype):
         self.log.debug("Querying %s %s", qname, qtype)
-        if qtype == "PTR":
-            qname = dns.reversename.from_address(qname)
         try:
+            if qtype == "PTR":
+                qname = dns.reversename.from_address(qname)
             result = self._resolver.query(qname, qtype)
             self.log.debug("Got %s for %s %s", result, qname, qtype)
             return result
@@ -192,7 +192,8 @@ class DNSInterface(object):
                 dns.resolver.NXDOMAIN, dns.exception.Timeout) as e:
             self.log.warn("Failed to resolve %s (%s): %s", qname, qtype, e)
             return []
-        except (ValueError, IndexError, struct.error) as e:
+        except (dns.exception.DNSException, ValueError, IndexError,
+                struct.error, OSError) as e:
             self.log.info("Invalid DNS entry %s (%s): %s", qname, qtype, e)
             return []
 
-- 
2.43.0


From 58159d5d90a2b137658bca3eef0c0cc4d0ba467b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:19 +0000
Subject: [PATCH 096/138] fix: compare DNS query restrictions like domain names

---
 oa/dns_interface.py | 7 +++++++
 oa/rules/ruleset.py | 1 +
 2 files changed, 8 insertions(+)

diff --git a/oa/dns_interface.py b/oa/dns_interface.py
index 16e64af..9f80c4a 100644
--- a/oa/dns_interface.py
+++ b/oa/dns_interface.py
@@ -139,6 +139,12 @@ class DNSInterface(object):
                 test_servers = value.split(":")[1].split()
                 self.test_qnames = test_servers
 
+    @staticmethod
+    def normalize(qname):
+        """The names are the same with or without the root label and do not
+        depend on the case."""
+        return qname.strip().rstrip(".").lower()
+
     def is_query_restricted(self, qname):
         """Checks whether the qname is restricted by the dns_query_restriction
         option if the qname or one of it's parent domains matches an entry in
@@ -152,6 +158,7 @@ class DNSInterface(object):
         if not self.query_restrictions:
             return False
 
+        qname = self.normalize(qname)
         while True:
             if qname in self.query_restrictions:
                 self.log.debug(self.query_restrictions)
diff --git a/oa/rules/ruleset.py b/oa/rules/ruleset.py
index 9ef8994..0c2b453 100644
--- a/oa/rules/ruleset.py
+++ b/oa/rules/ruleset.py
@@ -347,6 +347,7 @@ class RuleSet(object):
                 self.ctxt.log.info(
                     "Invalid value for dns_query_restriction %s", value)
                 continue
+            qname = self.ctxt.dns.normalize(qname)
             self.ctxt.dns.query_restrictions[qname] = option == "deny"
         dns_options = {"edns": "edns=4096",
                        "rotate": "norotate",
-- 
2.43.0


From 13bba8387826379823f491c00aadac9ad120dc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:19 +0000
Subject: [PATCH 097/138] fix: use the configured lifetime and timeout for DNS
 queries

---
 oa/dns_interface.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/oa/dns_interface.py b/oa/dns_interface.py
index 9f80c4a..f8f90a6 100644
--- a/oa/dns_interface.py
+++ b/oa/dns_interface.py
@@ -65,6 +65,22 @@ class DNSInterface(object):
     def port(self, port):
         self._resolver.port = port
 
+    @property
+    def lifetime(self):
+        return self._resolver.lifetime
+
+    @lifetime.setter
+    def lifetime(self, lifetime):
+        self._resolver.lifetime = lifetime
+
+    @property
+    def timeout(self):
+        return self._resolver.timeout
+
+    @timeout.setter
+    def timeout(self, timeout):
+        self._resolver.timeout = timeout
+
     @property
     def rotate_nameservers(self):
         return self._resolver.rotate
-- 
2.43.0


From 068a450a60f907625f174b32f6bbab872b44c06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:19 +0000
Subject: [PATCH 098/138] fix: use the configured DNS test interval

---
 oa/context.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/oa/context.py b/oa/context.py
index b2e486d..23f7565 100644
--- a/oa/context.py
+++ b/oa/context.py
@@ -364,6 +364,11 @@ class GlobalContext(_Context):
             self.dns.namerservers = nameservers
             self.dns.port = int(cport)
         self.dns.available = self.conf['dns_available']
+        try:
+            self.dns.test_interval = self.conf['dns_test_interval']
+        except ValueError:
+            self.err("Invalid dns_test_interval: %s",
+                     self.conf['dns_test_interval'])
 
     def _add_networks(self):
         for network in self.conf['trusted_networks']:
-- 
2.43.0


From 2c7a2994232b5719597203981378a0473d0d0c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:19 +0000
Subject: [PATCH 099/138] fix: look up the addresses of the untrusted relays

---
 oa/message.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/oa/message.py b/oa/message.py
index 8d0173b..0de94bc 100644
--- a/oa/message.py
+++ b/oa/message.py
@@ -269,14 +269,15 @@ class Message(oa.context.MessageContext):
         return values
 
     def get_untrusted_ips(self):
-        """Returns the untrusted IPs based on the users trusted
-        network settings.
+        """Returns the IPs of the untrusted relays, based on the users
+        trusted network settings. Addresses of private networks say nothing
+        about the relay and are left out.
 
         :return: A list of `ipaddress.ip_address`.
         """
-        ips = [ip for ip in self.get_header_ips()
-               if ip not in self.ctxt.networks.trusted]
-        return ips
+        ips = [ipaddress.ip_address(str(relay["ip"]))
+               for relay in self.untrusted_relays]
+        return [ip for ip in ips if not ip.is_private]
 
     def get_header_ips(self):
         values = list()
-- 
2.43.0


From 56e83b5b65ffa75ede7bd682f51f25c26bc2ae18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:01 +0000
Subject: [PATCH 100/138] fix: match the whole address with the whitelist globs

---
 oa/plugins/wlbl_eval.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/oa/plugins/wlbl_eval.py b/oa/plugins/wlbl_eval.py
index 6bcf89f..836ad4c 100644
--- a/oa/plugins/wlbl_eval.py
+++ b/oa/plugins/wlbl_eval.py
@@ -101,6 +101,11 @@ class WLBLEvalPlugin(oa.plugins.base.BasePlugin):
     def escape_addr(self, address):
         return re.escape(address).replace(r"\*", ".*").replace(r"\?", ".?")
 
+    @staticmethod
+    def match_addr(regex, address):
+        """Check if the whole address matches, regardless of the case."""
+        return Regex(r"^(?:%s)\Z" % regex, re.I | re.S).search(address)
+
     def parse_input(self, list_name):
         """Parse the list into a dictionary with the regex as key and the
         domain as value.
@@ -110,8 +115,11 @@ class WLBLEvalPlugin(oa.plugins.base.BasePlugin):
             line = addr.split(None, 1)
             if len(line) == 2:
                 if self.check_input(line[0]):
+                    address = self.escape_addr(line[0])
+                    if "@" not in address:
+                        address = ".*@" + address
                     for dom in line[1].split():
-                        parsed_list[self.escape_addr(line[0])].append(dom)
+                        parsed_list[address].append(dom)
         return parsed_list
 
     def parse_list(self, list_name):
@@ -119,7 +127,7 @@ class WLBLEvalPlugin(oa.plugins.base.BasePlugin):
         characters = ["?", "@", ".", "*@"]
         for addr in self[list_name]:
             if len([e for e in characters if e in addr]):
-                address = re.escape(addr).replace(r"\*", ".*").replace(r"\?", ".?")
+                address = self.escape_addr(addr)
                 if "@" in address:
                     parsed_list.append(address)
                 else:
@@ -201,7 +209,7 @@ class WLBLEvalPlugin(oa.plugins.base.BasePlugin):
         param = "from_in_whitelist"
         for address in addresses:
             for regex in self[list_name]:
-                if Regex(regex).search(address):
+                if self.match_addr(regex, address):
                     self.set_local(msg, param, 1)
                     return True
             wh = self.check_whitelist_rcvd(msg, "parsed_whitelist_from_rcvd",
@@ -218,7 +226,7 @@ class WLBLEvalPlugin(oa.plugins.base.BasePlugin):
         """
         for address in addresses:
             for regex in self[list_name]:
-                if Regex(regex).search(address):
+                if self.match_addr(regex, address):
                     return True
         return False
 
@@ -398,12 +406,11 @@ class WLBLEvalPlugin(oa.plugins.base.BasePlugin):
         elif len(msg.trusted_relays) > 0:
             relays.extend(msg.trusted_relays)
 
-        address = address.lower()
         found_forged = 0
         for white_addr in self[list_name]:
-            regexp = white_addr.replace("*", ".*")
+            regexp = re.sub(r"(?<!\.)\*", ".*", white_addr)
             for domain in self[list_name][white_addr]:
-                if Regex(regexp).search(address):
+                if self.match_addr(regexp, address):
                     match = self.check_rcvd(domain, relays)
                     if match == 1:
                         return 1
@@ -417,7 +424,7 @@ class WLBLEvalPlugin(oa.plugins.base.BasePlugin):
         """
         match = -1
         for relay in relays:
-            wl_ip = domain.strip("[ ").rstrip(" ]")
+            wl_ip = domain.strip("[ ").rstrip(" ]").lower()
             try:
                 swl_ip =str(wl_ip)
                 network = ipaddress.ip_network(_format_network_str(swl_ip,
@@ -437,7 +444,7 @@ class WLBLEvalPlugin(oa.plugins.base.BasePlugin):
         if found_forged:
             wlist = self['parsed_whitelist_allow_relays']
             for addr in wlist:
-                if Regex(addr).search(address):
+                if self.match_addr(addr, address):
                     found_forged = 0
                     break
         return found_forged
-- 
2.43.0


From 6d7f031c53364a1230a5df0345d686705e89bd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:01 +0000
Subject: [PATCH 101/138] fix: only consider the listed addresses as forged

---
 oa/plugins/wlbl_eval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/plugins/wlbl_eval.py b/oa/plugins/wlbl_eval.py
index 836ad4c..9a1d931 100644
--- a/oa/plugins/wlbl_eval.py
+++ b/oa/plugins/wlbl_eval.py
@@ -414,7 +414,7 @@ class WLBLEvalPlugin(oa.plugins.base.BasePlugin):
                     match = self.check_rcvd(domain, relays)
                     if match == 1:
                         return 1
-                found_forged = -1
+                    found_forged = -1
         found_forged = self.check_found_forged(address, found_forged)
         return found_forged
 
-- 
2.43.0


From 1ad104f7cca7bf59c01a9e700472800591939e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:01 +0000
Subject: [PATCH 102/138] fix: use all the lines of the whitelist options

---
 oa/plugins/wlbl_eval.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/oa/plugins/wlbl_eval.py b/oa/plugins/wlbl_eval.py
index 9a1d931..da5c484 100644
--- a/oa/plugins/wlbl_eval.py
+++ b/oa/plugins/wlbl_eval.py
@@ -33,15 +33,15 @@ class WLBLEvalPlugin(oa.plugins.base.BasePlugin):
         "all_spam_to": ("append_split", []),
         "more_spam_to": ("append_split", []),
 
-        "def_whitelist_from_rcvd": ("list", []),
-        "whitelist_from_rcvd": ("list", []),
+        "def_whitelist_from_rcvd": ("append", []),
+        "whitelist_from_rcvd": ("append", []),
 
         "whitelist_allow_relays": ("append_split", []),
 
-        "enlist_uri_host": ("list", []),
-        "delist_uri_host": ("list", []),
-        "blacklist_uri_host": ("list", []),
-        "whitelist_uri_host": ("list", []),
+        "enlist_uri_host": ("append", []),
+        "delist_uri_host": ("append", []),
+        "blacklist_uri_host": ("append", []),
+        "whitelist_uri_host": ("append", []),
         "util_rb_tld": ("append_split", []),
         "util_rb_2tld": ("append_split", []),
         "util_rb_3tld": ("append_split", [])
@@ -94,6 +94,12 @@ class WLBLEvalPlugin(oa.plugins.base.BasePlugin):
             'blacklist_uri_host')
         self['parsed_enlist_uri_host'] = self.parse_list_uri('enlist_uri_host')
 
+    def iter_list(self, list_name):
+        """Every line of the option can hold more values."""
+        for line in self[list_name]:
+            for value in line.split(","):
+                yield value
+
     def check_input(self, address):
         characters = ["?", "@", ".", "*@"]
         return len([e for e in characters if e in address])
@@ -111,7 +117,7 @@ class WLBLEvalPlugin(oa.plugins.base.BasePlugin):
         domain as value.
         """
         parsed_list = defaultdict(list)
-        for addr in self[list_name]:
+        for addr in self.iter_list(list_name):
             line = addr.split(None, 1)
             if len(line) == 2:
                 if self.check_input(line[0]):
@@ -142,7 +148,7 @@ class WLBLEvalPlugin(oa.plugins.base.BasePlugin):
             then apply for all lists.
         """
         parsed_list = defaultdict(list)
-        for x in self['delist_uri_host']:
+        for x in self.iter_list('delist_uri_host'):
             uri_host_list = x.split()
             if not uri_host_list:
                 continue
@@ -177,7 +183,7 @@ class WLBLEvalPlugin(oa.plugins.base.BasePlugin):
         """Parse witleist_uri_host and blacklist_uri_host
         """
         parsed_list = set()
-        for x in self[list_name]:
+        for x in self.iter_list(list_name):
             parsed_list.update(x.split())
         return parsed_list
 
@@ -188,7 +194,7 @@ class WLBLEvalPlugin(oa.plugins.base.BasePlugin):
         from config file
         """
         parsed_list = defaultdict(self.my_list)
-        for x in self[list_name]:
+        for x in self.iter_list(list_name):
             uri_host_list = x.split()
             if not uri_host_list:
                 continue
-- 
2.43.0


From e5a60de9e299bebd83c86e72bb9a687cfde7357b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:01 +0000
Subject: [PATCH 103/138] fix: compare the hosts of the URIs with the host
 lists

---
 oa/plugins/wlbl_eval.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/oa/plugins/wlbl_eval.py b/oa/plugins/wlbl_eval.py
index da5c484..1c8d62b 100644
--- a/oa/plugins/wlbl_eval.py
+++ b/oa/plugins/wlbl_eval.py
@@ -14,6 +14,10 @@ from oa.networks import _format_network_str
 #TL_TLDS = ['com', 'co.uk', 'multi.surbl.org']
 
 
+# The host of a URI, the scheme may be missing.
+URI_HOST_RE = re.compile(r"(?:\w+://)?(?:[^/?#]*@)?([^/?#:]*)")
+
+
 class WLBLEvalPlugin(oa.plugins.base.BasePlugin):
     eval_rules = ("check_from_in_whitelist", "check_to_in_whitelist",
                   "check_from_in_blacklist", "check_to_in_blacklist",
@@ -176,7 +180,8 @@ class WLBLEvalPlugin(oa.plugins.base.BasePlugin):
         """
         delist = self['parsed_delist_uri_host']
         for item in list_name:
-            if item not in delist[key] and item not in delist['ALL']:
+            host = item.strip("!")
+            if host not in delist[key] and host not in delist['ALL']:
                 self.add_in_list(key, item, parsed_list)
 
     def parse_wlbl_uri(self, list_name):
@@ -459,13 +464,19 @@ class WLBLEvalPlugin(oa.plugins.base.BasePlugin):
         """Check if the message has URIs that are listed
         in the specified hostname
         """
-        parsed_list = 'parsed_enlist_uri_host'
+        hosts = self['parsed_enlist_uri_host'][list_name]
+        listed = set(host.strip(".").lower() for host in hosts['in_list'])
+        excluded = set(host.strip(".").lower()
+                       for host in hosts['not_in_list'])
         for uri in msg.uri_list:
-            if uri in self[parsed_list][list_name]['not_in_list']:
-                continue
-            for _uri_list_name in self[parsed_list][list_name]['in_list']:
-                if uri.endswith(_uri_list_name):
+            # The closest of the domain and its parents decides.
+            domain = URI_HOST_RE.match(uri).group(1).rstrip(".").lower()
+            while domain:
+                if domain in excluded:
+                    break
+                if domain in listed:
                     return True
+                domain = domain.partition(".")[2]
         return False
 
     def check_uri_host_in_whitelist(self, msg, target=None):
-- 
2.43.0


From 01bdf01651d5a9f0569619c60e116efaed086a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:01 +0000
Subject: [PATCH 104/138] fix: compare the domains of the sender and the relay
 by labels

---
 oa/plugins/wlbl_eval.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/oa/plugins/wlbl_eval.py b/oa/plugins/wlbl_eval.py
index 1c8d62b..5a3b950 100644
--- a/oa/plugins/wlbl_eval.py
+++ b/oa/plugins/wlbl_eval.py
@@ -368,9 +368,11 @@ class WLBLEvalPlugin(oa.plugins.base.BasePlugin):
         address = msg.sender_address
         relays = []
         if address:
-            domain = self.base_domain(address.split("@")[1])
+            domain = self.base_domain(address.rsplit("@", 1)[-1].lower())
         else:
             return False
+        if not domain:
+            return False
         if len(msg.untrusted_relays) > 0:
             relays.append(msg.untrusted_relays[0])
         elif len(msg.trusted_relays) > 0:
@@ -378,8 +380,9 @@ class WLBLEvalPlugin(oa.plugins.base.BasePlugin):
         else:
             return False
         for relay in relays:
-            relay_domain = relay["rdns"]
-            if relay_domain.endswith(domain):
+            relay_domain = relay["rdns"].lower()
+            if (relay_domain == domain or
+                    relay_domain.endswith("." + domain)):
                 return True
 
         return False
-- 
2.43.0


From 9a2246883ca6a8acde7069232d3c03fddeaeb914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:23 +0000
Subject: [PATCH 105/138] fix: use the scores and descriptions of the
 uri_detail rules

---
 oa/plugins/uri_detail.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/oa/plugins/uri_detail.py b/oa/plugins/uri_detail.py
index 5d530c1..c19d181 100644
--- a/oa/plugins/uri_detail.py
+++ b/oa/plugins/uri_detail.py
@@ -10,6 +10,7 @@ except ImportError:
     from urlparse import urlparse
 
 import oa.regex
+import oa.rules.base
 import oa.rules.uri
 import oa.plugins.base
 import oa.html_parser
@@ -23,8 +24,10 @@ class URIDetailRule(oa.rules.uri.URIRule):
     """
     _rule_type = "uri_detail"
 
-    def __init__(self, name, pattern, score=None, desc=None):
-        super(URIDetailRule, self).__init__(name, pattern, score, desc)
+    def __init__(self, name, pattern, score=None, desc=None, priority=0,
+                 tflags=None):
+        super(URIDetailRule, self).__init__(name, pattern, score, desc,
+                                            priority, tflags)
 
     def check_single_item(self, value):
         """Checks one item agains the patterns, return True if all
@@ -59,7 +62,8 @@ class URIDetailRule(oa.rules.uri.URIRule):
         for key, oper, regex in checks:
             pyregex = oa.regex.perl2re(regex, oper)
             patterns.append((key, pyregex))
-        kwargs = {"pattern": patterns}
+        kwargs = oa.rules.base.BaseRule.get_rule_kwargs(data)
+        kwargs["pattern"] = patterns
         return kwargs
 
 
-- 
2.43.0


From d33d135141e284401c27a121027aa0cd8f2197b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:23 +0000
Subject: [PATCH 106/138] fix: match the texts of the links with the uri_detail
 rules

---
 oa/plugins/uri_detail.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/oa/plugins/uri_detail.py b/oa/plugins/uri_detail.py
index c19d181..8bdd4ae 100644
--- a/oa/plugins/uri_detail.py
+++ b/oa/plugins/uri_detail.py
@@ -38,7 +38,15 @@ class URIDetailRule(oa.rules.uri.URIRule):
                 # Does not match...
                 return False
             data = value[key]
-            match = regex.match(data)
+            if isinstance(data, list):
+                # The texts of all the anchors with this target.
+                results = [regex.match(text) for text in data]
+                if isinstance(regex, oa.regex.NotMatchPattern):
+                    match = all(results)
+                else:
+                    match = any(results)
+            else:
+                match = regex.match(data)
             # All items should match to return True.
             if not match:
                 return False
-- 
2.43.0


From 4555d173787d56c73763d91ea9bbbef400fb7762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:23 +0000
Subject: [PATCH 107/138] fix: accept escaped slashes and flags in uri_detail
 rules

---
 oa/plugins/uri_detail.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oa/plugins/uri_detail.py b/oa/plugins/uri_detail.py
index 8bdd4ae..a0d1e74 100644
--- a/oa/plugins/uri_detail.py
+++ b/oa/plugins/uri_detail.py
@@ -16,7 +16,8 @@ import oa.plugins.base
 import oa.html_parser
 
 URI_DRREG = oa.regex.Regex(
-        r"(?P<key>\w*)\s+(?P<op>[\=\!\~]{1,2})\s+(?P<regex>/.*?/)")
+        r"(?P<key>\w*)\s+(?P<op>[\=\!\~]{1,2})\s+"
+        r"(?P<regex>/(?:\\.|[^\\/])*/[a-z]*)")
 
 
 class URIDetailRule(oa.rules.uri.URIRule):
-- 
2.43.0


From ad4d6f4dda3df54583becf73f4a655de2467f9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:23 +0000
Subject: [PATCH 108/138] fix: check all the links for mismatched IP addresses

---
 oa/plugins/uri_eval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/plugins/uri_eval.py b/oa/plugins/uri_eval.py
index bb3a755..75f5550 100644
--- a/oa/plugins/uri_eval.py
+++ b/oa/plugins/uri_eval.py
@@ -60,7 +60,7 @@ class URIEvalPlugin(oa.plugins.base.BasePlugin):
                 try:
                     ipaddress.ip_address(str(domain))
                 except ValueError:
-                    return 0
+                    continue
                 value = a_tag.get("text", "")
                 uri_list = self.extract_url_from_text(value)
                 for uri in uri_list:
-- 
2.43.0


From eba3f397d4c7c120f5b4cacaf93e7a0ac6b4db50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:40 +0000
Subject: [PATCH 109/138] fix: accept links without a valid target

---
 oa/html_parser.py      | 12 ++++++++----
 oa/plugins/uri_eval.py | 16 +++++++++++++---
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/oa/html_parser.py b/oa/html_parser.py
index d1baca5..2ccdd1b 100644
--- a/oa/html_parser.py
+++ b/oa/html_parser.py
@@ -35,7 +35,7 @@ class HTML(HTMLParser):
             self.last_start_tag = tag
             for item in attrs:
                 prop, value = item
-                if prop not in ("href", "src"):
+                if prop not in ("href", "src") or not value:
                     continue
                 link = parse_link(value, tag)
                 if value in self.links:
@@ -66,10 +66,14 @@ def parse_link(value, linktype):
     link = {}
     link[linktype] = {}
     link[linktype]["raw"] = value
-    urlp = urlparse(value)
-    link[linktype]["scheme"] = urlp.scheme
+    try:
+        scheme, domain = urlparse(value)[:2]
+    except ValueError:
+        # For example an invalid IPv6 address
+        scheme, domain = "", ""
+    link[linktype]["scheme"] = scheme
     link[linktype]["cleaned"] = unquote(value)
-    link[linktype]["domain"] = urlp.netloc
+    link[linktype]["domain"] = domain
     return link
 
 
diff --git a/oa/plugins/uri_eval.py b/oa/plugins/uri_eval.py
index 75f5550..a5919b7 100644
--- a/oa/plugins/uri_eval.py
+++ b/oa/plugins/uri_eval.py
@@ -30,6 +30,16 @@ class URIEvalPlugin(oa.plugins.base.BasePlugin):
                   "check_uri_truncated"
                   )
 
+    @staticmethod
+    def get_netloc(uri):
+        """Get the network location of the URI or an empty string if the URI
+        is not valid.
+        """
+        try:
+            return urlparse(uri).netloc
+        except ValueError:
+            return ""
+
     def check_for_http_redirector(self, msg, target=None):
         """Checks if the uri has been redirected.
             -use HTTP_REDIR regex in order to extract the
@@ -41,8 +51,8 @@ class URIEvalPlugin(oa.plugins.base.BasePlugin):
                 h_redir = HTTP_REDIR.match(uri).groups()[0]
                 h_dest = HTTP_REDIR.match(uri).groups()[1]
                 uri = h_dest
-                h_redir = urlparse(h_redir).netloc
-                h_dest = urlparse(h_dest).netloc
+                h_redir = self.get_netloc(h_redir)
+                h_dest = self.get_netloc(h_dest)
                 if h_redir != h_dest:
                     return 1
         return 0
@@ -64,7 +74,7 @@ class URIEvalPlugin(oa.plugins.base.BasePlugin):
                 value = a_tag.get("text", "")
                 uri_list = self.extract_url_from_text(value)
                 for uri in uri_list:
-                    domain = urlparse(uri).netloc
+                    domain = self.get_netloc(uri)
                     try:
                         ipaddress.ip_address(str(domain))
                     except ValueError:
-- 
2.43.0


From 0740de4c879289bcb46a34bd259bb12ff7d1413b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:40 +0000
Subject: [PATCH 110/138] fix: keep the whole text of each anchor

---
 oa/html_parser.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/oa/html_parser.py b/oa/html_parser.py
index 2ccdd1b..0e15e4e 100644
--- a/oa/html_parser.py
+++ b/oa/html_parser.py
@@ -1,5 +1,6 @@
 """Parser for fetching all links in a message"""
 
+from html import unescape
 from html.parser import HTMLParser
 
 try:
@@ -24,15 +25,16 @@ class HTML(HTMLParser):
         self.last_start_tag = None
         self.last_link_details = {}
         self.current_link = None
+        self.new_text = False
         self.logger = logger
 
-
     def handle_starttag(self, tag, attrs):
         '''
         Handle the start of a tag.
         '''
         if tag in ('a', 'link'):
             self.last_start_tag = tag
+            self.current_link = None
             for item in attrs:
                 prop, value = item
                 if prop not in ("href", "src") or not value:
@@ -42,14 +44,19 @@ class HTML(HTMLParser):
                     if tag in self.links[value]:
                         self.links[value][tag].update(link[tag])
                         self.current_link = value
+                        self.new_text = True
                         continue
                 else:
                     self.links[value] = {}
                 link[tag]['text'] = []
                 self.links[value][tag] = link[tag]
                 self.current_link = value
+                self.new_text = True
 
     def handle_endtag(self, tag):
+        if tag not in ('a', 'link'):
+            # Still inside of the anchor.
+            return
         self.last_start_tag = None
         self.current_link = None
 
@@ -58,8 +65,18 @@ class HTML(HTMLParser):
         if not all([data, self.last_start_tag, self.current_link]):
             return
         if self.last_start_tag in ("a", "link"):
-            self.links[self.current_link][self.last_start_tag]["text"].\
-                append(data)
+            texts = self.links[self.current_link][self.last_start_tag]["text"]
+            if self.new_text:
+                texts.append(data)
+                self.new_text = False
+            else:
+                texts[-1] += data
+
+    def handle_entityref(self, name):
+        self.handle_data(unescape("&%s;" % name))
+
+    def handle_charref(self, name):
+        self.handle_data(unescape("&#%s;" % name))
 
 def parse_link(value, linktype):
     """ Returns a dictionary with information for the link"""
@@ -82,6 +99,7 @@ def parsed_metadata(msg, ctxt):
             message"""
     parser = HTML(ctxt.log)
     parser.feed(msg.raw_text)
+    parser.close()
     for uri in msg.uri_list:
         if uri in parser.links:
             continue
-- 
2.43.0


From cc8fe7e1850670236ab4a50042231f83c579869c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:19 +0000
Subject: [PATCH 111/138] fix: keep the live rule set intact when it is
 serialized

---
 oa/context.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/oa/context.py b/oa/context.py
index 23f7565..5692ae3 100644
--- a/oa/context.py
+++ b/oa/context.py
@@ -52,10 +52,16 @@ class _Context(object):
         self.log = logging.getLogger("oa-logger")
 
     def __getstate__(self):
-        odict = self.__dict__.copy()  # copy the dict since we change it
+        # Copy everything that we change, this context is still used.
+        odict = self.__dict__.copy()
+        odict["plugin_data"] = self.plugin_data.copy()
+        odict["plugins"] = self.plugins.copy()
+        odict["eval_rules"] = self.eval_rules.copy()
         if "RelayCountryPlugin" in odict["plugin_data"]:
-            del odict["plugin_data"]["RelayCountryPlugin"]["ipv4"]
-            del odict["plugin_data"]["RelayCountryPlugin"]["ipv6"]
+            data = odict["plugin_data"]["RelayCountryPlugin"].copy()
+            data.pop("ipv4", None)
+            data.pop("ipv6", None)
+            odict["plugin_data"]["RelayCountryPlugin"] = data
         odict["plugins_to_import"] = []
         for plugin_name, plugin in odict["plugins"].copy().items():
             if plugin.path_to_plugin is None:
@@ -63,7 +69,7 @@ class _Context(object):
             del odict["plugins"][plugin_name]
             odict["plugins_to_import"].append(plugin.path_to_plugin)
             for rule in plugin.eval_rules:
-                del odict["eval_rules"][rule]
+                odict["eval_rules"].pop(rule, None)
         return odict
 
     def __setstate__(self, d):
-- 
2.43.0


From e2cf68de10da257d338678eab65d49ec4e841109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:19 +0000
Subject: [PATCH 112/138] fix: keep the configuration of the resolver in
 serialized rule sets

---
 oa/dns_interface.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/oa/dns_interface.py b/oa/dns_interface.py
index f8f90a6..259d07d 100644
--- a/oa/dns_interface.py
+++ b/oa/dns_interface.py
@@ -48,14 +48,23 @@ class DNSInterface(object):
         self._resolver.rotate = False
         self._available = True
 
+    _resolver_options = ("port", "lifetime", "timeout", "nameservers",
+                         "edns", "rotate")
+
     def __getstate__(self):
         odict = self.__dict__.copy()  # copy the dict since we change it
-        del odict['_resolver']
+        resolver = odict.pop('_resolver')
+        odict['_resolver_conf'] = dict(
+            (name, getattr(resolver, name)) for name in self._resolver_options)
         return odict
 
     def __setstate__(self, d):
+        d = d.copy()
+        conf = d.pop('_resolver_conf', {})
         self.__dict__.update(d)
         self._resolver = dns.resolver.Resolver()
+        for name, value in conf.items():
+            setattr(self._resolver, name, value)
 
     @property
     def port(self):
-- 
2.43.0


From 23ebe204ef034c99a5e70e9573aea7609af8c861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:22 +0000
Subject: [PATCH 113/138] fix: serialize rule sets that use a database

---
 oa/context.py             | 6 ++++++
 oa/db/bayes/sqlalchemy.py | 6 ++++++
 oa/plugins/base.py        | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/oa/context.py b/oa/context.py
index 5692ae3..972e619 100644
--- a/oa/context.py
+++ b/oa/context.py
@@ -62,6 +62,12 @@ class _Context(object):
             data.pop("ipv4", None)
             data.pop("ipv6", None)
             odict["plugin_data"]["RelayCountryPlugin"] = data
+        # The database connections are opened again after the parsing ends.
+        for name, data in odict["plugin_data"].items():
+            if "engine" in data:
+                data = data.copy()
+                del data["engine"]
+                odict["plugin_data"][name] = data
         odict["plugins_to_import"] = []
         for plugin_name, plugin in odict["plugins"].copy().items():
             if plugin.path_to_plugin is None:
diff --git a/oa/db/bayes/sqlalchemy.py b/oa/db/bayes/sqlalchemy.py
index f3c903f..71883a1 100644
--- a/oa/db/bayes/sqlalchemy.py
+++ b/oa/db/bayes/sqlalchemy.py
@@ -87,6 +87,12 @@ class Store(object):
         self.conn = None
         self.plugin = plugin
 
+    def __getstate__(self):
+        odict = self.__dict__.copy()
+        # Not serializable
+        odict["engine"] = odict["conn"] = None
+        return odict
+
     def untie_db(self):
         """Remove the connection to the database."""
         if self.conn:
diff --git a/oa/plugins/base.py b/oa/plugins/base.py
index 0609c58..3120609 100644
--- a/oa/plugins/base.py
+++ b/oa/plugins/base.py
@@ -136,6 +136,12 @@ class BasePlugin(oa.conf.Conf, object):
             # Whatever SQLAlchemy or the driver raise for an invalid DSN
             self.ctxt.err("Unable to use the DSN %s: %s", self.dsn, e)
 
+    def __getstate__(self):
+        odict = self.__dict__.copy()
+        # Not serializable
+        odict.pop("engine", None)
+        return odict
+
     def get_engine(self):
         return self["engine"]
 
-- 
2.43.0


From b1cd3eecb98c149520ef56f1670e7df2f8ec5761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:39 +0000
Subject: [PATCH 114/138] fix: keep the subject lists in serialized rule sets

---
 oa/plugins/whitelist_subject.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/oa/plugins/whitelist_subject.py b/oa/plugins/whitelist_subject.py
index dc9c149..31d8561 100644
--- a/oa/plugins/whitelist_subject.py
+++ b/oa/plugins/whitelist_subject.py
@@ -42,19 +42,19 @@ class WhiteListSubjectPlugin(oa.plugins.base.BasePlugin):
     def check_subject_in_whitelist(self, msg, target=None):
         """Check the subject in the blacklist subjects list
         """
-        return self._check_subject(msg, self.options["whitelist_subject"][1])
+        return self._check_subject(msg, self["whitelist_subject"])
 
     def check_subject_in_blacklist(self, msg, target=None):
         """Check the subject in the blacklist subjects list
         """
-        return self._check_subject(msg, self.options["blacklist_subject"][1])
+        return self._check_subject(msg, self["blacklist_subject"])
 
     def _check_subject(self, msg, option_list):
         """ Does the work for checking the subject in the whitelist/blacklist
         subjects list.
 
-        option_list is either self.options["whitelist_subject"] or
-        self.options["blacklist_subject"]
+        option_list is either self["whitelist_subject"] or
+        self["blacklist_subject"]
         """
         subject = msg.msg["subject"]
         for item in option_list:
-- 
2.43.0


From 5b74b3580d500bcced7247d0e45aa1e3d4905462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:09 +0000
Subject: [PATCH 115/138] fix: replace the tags between the configured start
 and end strings

---
 oa/plugins/replace_tags.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/oa/plugins/replace_tags.py b/oa/plugins/replace_tags.py
index 452c532..271a1db 100644
--- a/oa/plugins/replace_tags.py
+++ b/oa/plugins/replace_tags.py
@@ -5,11 +5,6 @@ import re
 import oa.errors
 import oa.plugins.base
 
-from oa.regex import Regex
-
-# This splits value in the corresponding tags
-SPLIT_TAGS = Regex(r"(<[^<>]+>)")
-
 
 class ReplaceTags(oa.plugins.base.BasePlugin):
     """Replace tags in various rules."""
@@ -81,7 +76,14 @@ class ReplaceTags(oa.plugins.base.BasePlugin):
 
         results = []
         replace_tags = self["replace_tag"]
-        splits = SPLIT_TAGS.split(rule_value)
+        # Split the value in the corresponding tags. The names of the tags
+        # include the configured start and end strings.
+        names = sorted(replace_tags, key=len, reverse=True)
+        if names:
+            splits = re.split("(%s)" % "|".join(map(re.escape, names)),
+                              rule_value)
+        else:
+            splits = [rule_value]
         for i, value in enumerate(splits):
             try:
                 replace_value = replace_tags[value]
-- 
2.43.0


From d90fb59325d64323be0b213c6bf4992da54965cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:09 +0000
Subject: [PATCH 116/138] fix: replace the tags of each rule only once

---
 oa/plugins/replace_tags.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/oa/plugins/replace_tags.py b/oa/plugins/replace_tags.py
index 271a1db..088f9da 100644
--- a/oa/plugins/replace_tags.py
+++ b/oa/plugins/replace_tags.py
@@ -115,7 +115,12 @@ class ReplaceTags(oa.plugins.base.BasePlugin):
         for which in ("pre", "inter", "post", "tag"):
             self.prepare_tags(which)
 
+        replaced = set()
         for rule_name in self["replace_rules"]:
+            if rule_name in replaced:
+                # Listed more than once.
+                continue
+            replaced.add(rule_name)
             try:
                 rule_results = results[rule_name]
                 rule_value = rule_results["value"]
-- 
2.43.0


From f66ded0087f5eb77eb5806f0708ab657de10d763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:55 +0000
Subject: [PATCH 117/138] fix: keep the headers with control characters in one
 piece

---
 oa/rules/ruleset.py | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/oa/rules/ruleset.py b/oa/rules/ruleset.py
index 0c2b453..2e34321 100644
--- a/oa/rules/ruleset.py
+++ b/oa/rules/ruleset.py
@@ -8,6 +8,7 @@ import re
 import socket
 import email.utils
 import collections
+import email.header
 import email.message
 import email.mime.text
 import email.mime.base
@@ -39,6 +40,22 @@ class _OriginalMessage(email.message.Message):
         return "text/plain"
 
 
+# Characters, besides the line breaks, that the email package uses to separate
+# the lines of a header.
+_SEPARATORS_RE = oa.regex.Regex(u"[\x0b\x0c\x1c-\x1e\x85\u2028\u2029]")
+
+
+class _RawHeader(email.header.Header):
+    """The value of a header that is going to be written as it is."""
+
+    def __init__(self, value):
+        email.header.Header.__init__(self)
+        self.value = value
+
+    def encode(self, *args, **kwargs):
+        return re.sub("\r\n?", "\n", self.value)
+
+
 class RuleSet(object):
     """A set of rules used to match against a message."""
     header_start = "X-Spam-"
@@ -198,11 +215,26 @@ class RuleSet(object):
             self._adjust_headers(msg, newmsg, self.header_mod["spam"])
         else:
             self._adjust_headers(msg, newmsg, self.header_mod["ham"])
+        self._keep_separators(newmsg)
         if header_only:
             newmsg.set_payload("")
             return newmsg.as_string().split("\n\n", 1)[0] + "\n\n"
         return newmsg.as_string()
 
+    @staticmethod
+    def _keep_separators(newmsg):
+        """Do not split the headers of this message at the characters that are
+        not line breaks.
+        """
+        headers = [
+            (name, _RawHeader(value)
+             if isinstance(value, str) and _SEPARATORS_RE.search(value)
+             else value) for name, value in newmsg.items()]
+        for name in newmsg.keys():
+            del newmsg[name]
+        for name, value in headers:
+            newmsg[name] = value
+
     def _adjust_headers(self, msg, newmsg, rules):
         """Adjust the headers of this message according to
         this list of rules. The rules are tuples in the following
-- 
2.43.0


From 95c7c7981b0baf44759734f01a37d1c1491eac5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:24 +0000
Subject: [PATCH 118/138] fix: only line breaks end the lines of the header
 section

---
 oa/message.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/message.py b/oa/message.py
index 0de94bc..5e82f3f 100644
--- a/oa/message.py
+++ b/oa/message.py
@@ -466,7 +466,7 @@ class Message(oa.context.MessageContext):
         self._hook_check_start()
         # Dump the message raw headers
 
-        for line in self.raw_msg.splitlines():
+        for line in re.split("\r\n?|\n", self.raw_msg):
             if not email.feedparser.headerRE.match(line):
                 # If we saw the RFC defined header/body separator
                 # (i.e. newline), just throw it away. Otherwise the line is
-- 
2.43.0


From 1c21f60593368e75b2a6497a53642079c5ac5c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:09 +0000
Subject: [PATCH 119/138] fix: read the configuration directory once whatever
 the way it is written

---
 oa/config.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oa/config.py b/oa/config.py
index 479a0ea..c7a8d59 100644
--- a/oa/config.py
+++ b/oa/config.py
@@ -106,7 +106,9 @@ def get_config_files(config_path, siteconfig_path, userpref_path=None):
     config_files = []
     config_files.extend(
             sorted(get_files_with_extension(siteconfig_path, ".pre")))
-    if siteconfig_path != config_path:
+    # The same directory can be written in various ways.
+    if (os.path.realpath(os.path.expanduser(siteconfig_path)) !=
+            os.path.realpath(os.path.expanduser(config_path))):
         config_files.extend(
                 sorted(get_files_with_extension(config_path, ".pre")))
         config_files.extend(
-- 
2.43.0


From bebc843f19a6bdc7b2c3704cf332efb7d463a1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:15 +0000
Subject: [PATCH 120/138] fix: A signature that does not verify is no valid
 signature of the author

---
 oa/plugins/dkim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/plugins/dkim.py b/oa/plugins/dkim.py
index 2d5cc7f..7155c6f 100644
--- a/oa/plugins/dkim.py
+++ b/oa/plugins/dkim.py
@@ -199,7 +199,7 @@ class DKIMPlugin(oa.plugins.base.BasePlugin):
         """
         if not self.dkim_checked_signature:
             self.check_dkim_signature(msg)
-        if not self.dkim_has_valid_author_sig:
+        if not self.dkim_has_valid_author_sig or not self.is_valid:
             return False
         if not args:
             return True
-- 
2.43.0


From c60a16818dd03d4289bdebc849ac8177865f86c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:15 +0000
Subject: [PATCH 121/138] fix: Compare the whole labels of the domain of a DKIM
 signature, without case

---
 oa/plugins/dkim.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/oa/plugins/dkim.py b/oa/plugins/dkim.py
index 7155c6f..78e224d 100644
--- a/oa/plugins/dkim.py
+++ b/oa/plugins/dkim.py
@@ -246,7 +246,7 @@ class DKIMPlugin(oa.plugins.base.BasePlugin):
         for header in self.author_addresses:
             match_domain = Regex("@([^@]+?)[ \t]*$").search(header)
             if match_domain:
-                domain = match_domain.group(1)
+                domain = match_domain.group(1).lower()
                 self.author_domains.append(domain.encode())
 
     def _check_dkim_signed_by(self, msg, must_be_valid,
@@ -259,7 +259,7 @@ class DKIMPlugin(oa.plugins.base.BasePlugin):
             if not self.is_valid:
                 return False
         try:
-            signature_domain = parsed_signature[b'd']
+            signature_domain = parsed_signature[b'd'].lower()
         except KeyError:
             return False
         if must_be_author_domain_signature:
@@ -268,12 +268,10 @@ class DKIMPlugin(oa.plugins.base.BasePlugin):
             if signature_domain not in self.author_domains:
                 return False
 
-        parts = acceptable_domains.split('.')
-        if len(parts) > 1:
-            domain = ".".join(parts[-2:]).encode()
-            if domain == signature_domain or domain in signature_domain:
-                result = 1
-        elif acceptable_domains == signature_domain:
+        parts = acceptable_domains.lower().split('.')
+        domain = ".".join(parts[-2:]).encode()
+        if (domain == signature_domain or
+                len(parts) > 1 and signature_domain.endswith(b"." + domain)):
             result = 1
         return result
 
@@ -296,7 +294,7 @@ class DKIMPlugin(oa.plugins.base.BasePlugin):
             self.ctxt.log.debug("Invalid DKIM signature: %s", e)
             parsed_signature = {}
         try:
-            if parsed_signature[b'd'] not in self.author_domains:
+            if parsed_signature[b'd'].lower() not in self.author_domains:
                 self.dkim_valid = 0
                 self.dkim_signed = 0
                 self.dkim_has_valid_author_sig = 0
-- 
2.43.0


From 8cc56f1fb7fe0e40f226c1d76b576056b58463c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:15 +0000
Subject: [PATCH 122/138] fix: Match the DKIM white list globs against the
 whole address

---
 oa/plugins/dkim.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/oa/plugins/dkim.py b/oa/plugins/dkim.py
index 78e224d..650b7bf 100644
--- a/oa/plugins/dkim.py
+++ b/oa/plugins/dkim.py
@@ -234,10 +234,12 @@ class DKIMPlugin(oa.plugins.base.BasePlugin):
         whitelist_address = self.parse_input(list_name)
         for author in self.author_addresses:
             for key, value in whitelist_address.items():
-                if re.match(key, author.encode()):
+                glob = re.escape(key.replace(b".*", b"*"))
+                glob = glob.replace(b"\\*", b".*").replace(b"\\?", b".")
+                if re.match(glob + b"\\Z", author.encode(), re.I):
                     if value == "":
                         return True
-                    elif value.encode() in self.author_domains:
+                    elif value.lower().encode() in self.author_domains:
                         return True
         return False
 
-- 
2.43.0


From 0a42e25dcc0878fe83619d8b6a91f7e6d3b9bd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:15 +0000
Subject: [PATCH 123/138] fix: A DKIM signature whitelists only the authors of
 the signing domain

---
 oa/plugins/dkim.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/oa/plugins/dkim.py b/oa/plugins/dkim.py
index 650b7bf..c705913 100644
--- a/oa/plugins/dkim.py
+++ b/oa/plugins/dkim.py
@@ -329,13 +329,11 @@ class DKIMPlugin(oa.plugins.base.BasePlugin):
             self.dkim_valid = 0
             self.dkim_has_valid_author_sig = 0
 
-
-
-
-
-
-
-
-
-
+        if self.dkim_valid:
+            # The signature stands only for the authors of its own domain
+            domain = parsed_signature[b'd'].lower()
+            self.author_domains = [domain]
+            self.author_addresses = [
+                address for address in self.author_addresses
+                if address.strip().lower().encode().endswith(b"@" + domain)]
 
-- 
2.43.0


From 3ce63dc36ea44299395c33a57e998ab6426a7d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:15 +0000
Subject: [PATCH 124/138] fix: Match the SPF white list globs against the whole
 address

---
 oa/plugins/spf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/plugins/spf.py b/oa/plugins/spf.py
index 773a61f..a05817a 100644
--- a/oa/plugins/spf.py
+++ b/oa/plugins/spf.py
@@ -149,7 +149,7 @@ class SpfPlugin(oa.plugins.base.BasePlugin):
             if not self.check_for_spf_pass(msg):
                 return False
         for regex in parsed_list:
-            if re.match(regex, msg.sender_address):
+            if re.match(regex + r"\Z", msg.sender_address, re.I):
                 return True
         return False
 
-- 
2.43.0


From 68e3a90c617483b72f985660154bc9cb86aa76a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:43 +0000
Subject: [PATCH 125/138] fix: A DKIM whitelist entry does not replace the ones
 of other domains

---
 oa/plugins/dkim.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/oa/plugins/dkim.py b/oa/plugins/dkim.py
index c705913..560fa80 100644
--- a/oa/plugins/dkim.py
+++ b/oa/plugins/dkim.py
@@ -114,11 +114,17 @@ class DKIMPlugin(oa.plugins.base.BasePlugin):
             if line[0]:
                 if line[0] in self["unwhitelist_from_dkim"]:
                     continue
-                if len(line) == 2:
-                    for dom in line[1].split():
-                        parsed_list[line[0].encode().replace(b'*', b'.*')] = dom
-                else:
-                    parsed_list[line[0].encode().replace(b'*', b'.*')] = ""
+                key = line[0].encode().replace(b'*', b'.*')
+                domains = line[1].strip() if len(line) == 2 else ""
+                if list_name == "adsp_override":
+                    # One practice for each domain, the last one given
+                    domains = domains.split()[-1] if domains else ""
+                elif not domains or parsed_list.get(key) == "":
+                    # Signatures of any domain
+                    domains = ""
+                elif key in parsed_list:
+                    domains = "%s %s" % (parsed_list[key], domains)
+                parsed_list[key] = domains
         return parsed_list
 
     def check_dkim_adsp(self, msg, adsp_char="", domains_list=None,
@@ -239,8 +245,9 @@ class DKIMPlugin(oa.plugins.base.BasePlugin):
                 if re.match(glob + b"\\Z", author.encode(), re.I):
                     if value == "":
                         return True
-                    elif value.lower().encode() in self.author_domains:
-                        return True
+                    for domain in value.lower().split():
+                        if domain.encode() in self.author_domains:
+                            return True
         return False
 
     def _get_authors(self, msg):
-- 
2.43.0


From f661d90f9dce8217a37d17fecf9b468daa4b87b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:10 +0000
Subject: [PATCH 126/138] Revert "fix: A signature that does not verify is no
 valid signature of the author"

This reverts commit bebc843f19a6bdc7b2c3704cf332efb7d463a1bc.
---
 oa/plugins/dkim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/plugins/dkim.py b/oa/plugins/dkim.py
index 560fa80..342b916 100644
--- a/oa/plugins/dkim.py
+++ b/oa/plugins/dkim.py
@@ -205,7 +205,7 @@ class DKIMPlugin(oa.plugins.base.BasePlugin):
         """
         if not self.dkim_checked_signature:
             self.check_dkim_signature(msg)
-        if not self.dkim_has_valid_author_sig or not self.is_valid:
+        if not self.dkim_has_valid_author_sig:
             return False
         if not args:
             return True
-- 
2.43.0


From 75f0ae68b1d81834a3a50f3f1fbb0889fa20b3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:17 +0000
Subject: [PATCH 127/138] fix: A maximum of 0 in the image and PDF rules is a
 maximum

---
 oa/plugins/image_info.py | 12 +++++++-----
 oa/plugins/pdf_info.py   | 12 +++++++++---
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/oa/plugins/image_info.py b/oa/plugins/image_info.py
index c485380..c609d03 100644
--- a/oa/plugins/image_info.py
+++ b/oa/plugins/image_info.py
@@ -201,7 +201,7 @@ class ImageInfoPlugin(oa.plugins.base.BasePlugin):
 
         count = self._get_count(msg, img_type)
         min_count = int(min_count)
-        if max_count:
+        if max_count is not None:
             max_count = int(max_count)
             return min_count <= count <= max_count
         else:
@@ -212,7 +212,7 @@ class ImageInfoPlugin(oa.plugins.base.BasePlugin):
         """Determine the pixel coverage"""
         coverage = self._get_coverage(msg, img_type)
         min_coverage = int(min_coverage)
-        if max_coverage:
+        if max_coverage is not None:
             max_coverage = int(max_coverage)
             return min_coverage <= coverage <= max_coverage
         return min_coverage <= coverage
@@ -229,10 +229,12 @@ class ImageInfoPlugin(oa.plugins.base.BasePlugin):
             if img['height'] < int(min_height):
                 continue
 
-            if max_width and img['width'] > int(max_width):
+            if (max_width is not None and
+                    img['width'] > int(max_width)):
                 continue
 
-            if max_height and img['height'] > int(max_height):
+            if (max_height is not None and
+                    img['height'] > int(max_height)):
                 continue
 
             return True
@@ -253,7 +255,7 @@ class ImageInfoPlugin(oa.plugins.base.BasePlugin):
         except ZeroDivisionError:
             ratio = text_len
         min_ratio = float(min_ratio)
-        if max_ratio:
+        if max_ratio is not None:
             max_ratio = float(max_ratio)
             return min_ratio <= ratio <= max_ratio
 
diff --git a/oa/plugins/pdf_info.py b/oa/plugins/pdf_info.py
index 25c1c99..9311979 100644
--- a/oa/plugins/pdf_info.py
+++ b/oa/plugins/pdf_info.py
@@ -62,7 +62,9 @@ class PDFInfoPlugin(oa.plugins.base.BasePlugin):
           'minimum' and less or equal than 'maximum' (if set)
         """
         count = self._get_count(msg)
-        return minimum <= count <= (maximum or float("inf"))
+        if maximum is None:
+            maximum = float("inf")
+        return minimum <= count <= maximum
 
     def _get_image_count(self, msg):
         """Get the number of Images in PDF attachments"""
@@ -92,7 +94,9 @@ class PDFInfoPlugin(oa.plugins.base.BasePlugin):
         less or equal than 'maximum'.
         """
         count = self._get_image_count(msg)
-        return minimum <= count <= (maximum or float("inf"))
+        if maximum is None:
+            maximum = float("inf")
+        return minimum <= count <= maximum
 
     def _get_pixel_coverage(self, msg):
         """Return the cumulative pixel coverage"""
@@ -123,7 +127,9 @@ class PDFInfoPlugin(oa.plugins.base.BasePlugin):
         'minimum' and less or equal to 'maximum'.
         """
         coverage = self._get_pixel_coverage(msg)
-        return minimum <= coverage <= (maximum or float("inf"))
+        if maximum is None:
+            maximum = float("inf")
+        return minimum <= coverage <= maximum
 
     def _get_pdf_names(self, msg):
         try:
-- 
2.43.0


From a95071bf5a39a132b567baa250d698134c362332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:17 +0000
Subject: [PATCH 128/138] fix: The same image in parts of different types has
 its size in both

---
 oa/plugins/image_info.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/oa/plugins/image_info.py b/oa/plugins/image_info.py
index c609d03..9409455 100644
--- a/oa/plugins/image_info.py
+++ b/oa/plugins/image_info.py
@@ -136,6 +136,7 @@ class ImageInfoPlugin(oa.plugins.base.BasePlugin):
 
         if image_id in sizes['all']:
             img = sizes['all'][image_id]
+            sizes[subtype][image_id] = img
             area = img['width'] * img['height']
             self._update_coverage(msg, subtype, area)
 
-- 
2.43.0


From 95f10fa3af95228740b2f2872854c03c2d72a1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:17 +0000
Subject: [PATCH 129/138] fix: Decode the names of images and PDF files in the
 RFC 2231 form

---
 oa/plugins/image_info.py | 3 +++
 oa/plugins/pdf_info.py   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/oa/plugins/image_info.py b/oa/plugins/image_info.py
index 9409455..5e0c3d9 100644
--- a/oa/plugins/image_info.py
+++ b/oa/plugins/image_info.py
@@ -4,6 +4,7 @@ from __future__ import absolute_import
 
 import re
 import warnings
+import email.utils
 from io import BytesIO
 from hashlib import md5
 from collections import defaultdict
@@ -166,6 +167,8 @@ class ImageInfoPlugin(oa.plugins.base.BasePlugin):
         if part.get_content_maintype() == "image":
 
             name = part.get_param("name")
+            if isinstance(name, tuple):
+                name = email.utils.collapse_rfc2231_value(name)
             subtype = part.get_content_subtype()
 
             self._add_name(msg, name)
diff --git a/oa/plugins/pdf_info.py b/oa/plugins/pdf_info.py
index 9311979..2cd7911 100644
--- a/oa/plugins/pdf_info.py
+++ b/oa/plugins/pdf_info.py
@@ -3,6 +3,7 @@
 from __future__ import absolute_import
 
 import collections
+import email.utils
 from io import BytesIO
 from hashlib import md5
 
@@ -345,6 +346,8 @@ class PDFInfoPlugin(oa.plugins.base.BasePlugin):
         """Extend to extract the PDF metadata"""
         if part.get_content_type() == "application/pdf":
             name = part.get_param("name")
+            if isinstance(name, tuple):
+                name = email.utils.collapse_rfc2231_value(name)
             self._add_name(msg, name)
             self._update_counts(msg, incr=1)
             self._save_stats(msg, part.get_payload(decode=True))
-- 
2.43.0


From 8139b177366be2af843491ddd8fca8c430d46678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:17 +0000
Subject: [PATCH 130/138] fix: Skip the attachments without a name in the rules
 about names

---
 oa/plugins/image_info.py | 2 +-
 oa/plugins/pdf_info.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/oa/plugins/image_info.py b/oa/plugins/image_info.py
index 5e0c3d9..c6106a1 100644
--- a/oa/plugins/image_info.py
+++ b/oa/plugins/image_info.py
@@ -184,7 +184,7 @@ class ImageInfoPlugin(oa.plugins.base.BasePlugin):
         name_re = oa.regex.perl2re(regex)
         names = self._get_image_names(msg)
         for name in names:
-            if name_re.match(name):
+            if name and name_re.match(name):
                 return True
         return False
 
diff --git a/oa/plugins/pdf_info.py b/oa/plugins/pdf_info.py
index 2cd7911..253a51d 100644
--- a/oa/plugins/pdf_info.py
+++ b/oa/plugins/pdf_info.py
@@ -170,7 +170,7 @@ class PDFInfoPlugin(oa.plugins.base.BasePlugin):
         name_re = oa.regex.perl2re(regex)
         names = self._get_pdf_names(msg)
         for name in names:
-            if name_re.match(name):
+            if name and name_re.match(name):
                 return True
         return False
 
-- 
2.43.0


From b3af334c6e8c4cb10b9b0b9e44fd51718b8ff0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:17 +0000
Subject: [PATCH 131/138] fix: Compare the MD5 sums of PDF files without case,
 as documented

---
 oa/plugins/pdf_info.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oa/plugins/pdf_info.py b/oa/plugins/pdf_info.py
index 253a51d..a638dfb 100644
--- a/oa/plugins/pdf_info.py
+++ b/oa/plugins/pdf_info.py
@@ -195,7 +195,7 @@ class PDFInfoPlugin(oa.plugins.base.BasePlugin):
 
         :return: True if the md5hash is in the PDF hashes
         """
-        return md5hash in self._get_pdf_hashes(msg)
+        return md5hash.lower() in self._get_pdf_hashes(msg)
 
     def _update_fuzzy_md5(self, msg, texthash):
         """Add a md5 hash for text in a PDF"""
@@ -221,7 +221,7 @@ class PDFInfoPlugin(oa.plugins.base.BasePlugin):
         :return: True if the md5hash is in the list of fuzzy md5 hashes
         """
         hashes = self._get_fuzzy_md5(msg)
-        return md5hash in hashes
+        return md5hash.lower() in hashes
 
     def _update_details(self, msg, pdfid, detail, value):
         """Update the details for the PDF attachments"""
-- 
2.43.0


From e073e044168be3c15a73f6350c1c52ac191683f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:17 +0000
Subject: [PATCH 132/138] fix: Make the documented pdf_match_fuzzy_md5 rule
 available

---
 oa/plugins/pdf_info.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/oa/plugins/pdf_info.py b/oa/plugins/pdf_info.py
index a638dfb..1a93d0f 100644
--- a/oa/plugins/pdf_info.py
+++ b/oa/plugins/pdf_info.py
@@ -30,6 +30,7 @@ class PDFInfoPlugin(oa.plugins.base.BasePlugin):
         "pdf_named",
         "pdf_name_regex",
         "pdf_match_md5",
+        "pdf_match_fuzzy_md5",
         "pdf_match_details",
         "pdf_is_encrypted",
         "pdf_is_empty_body",
-- 
2.43.0


From a2a48cbc476db7fb0c938030d30b06f419c9869b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:17 +0000
Subject: [PATCH 133/138] fix: Match only the named detail of the PDF files

---
 oa/plugins/pdf_info.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/oa/plugins/pdf_info.py b/oa/plugins/pdf_info.py
index 1a93d0f..204e06c 100644
--- a/oa/plugins/pdf_info.py
+++ b/oa/plugins/pdf_info.py
@@ -255,11 +255,9 @@ class PDFInfoPlugin(oa.plugins.base.BasePlugin):
         detail_re = oa.regex.perl2re(regex)
         # There might be several pdf files, dig in all of them
         for pdfid in details:
-            allpdfs = details[pdfid]
-            for pdf in allpdfs:
-                value = allpdfs[pdf]
-                if detail_re.match(value):
-                    return True
+            value = details[pdfid].get(detail)
+            if value is not None and detail_re.match(value):
+                return True
         return False
 
     def _update_is_encrypted(self, msg, enc):
-- 
2.43.0


From 60b0b5dc67a996f002ee0a77b9c018e520158fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:34 +0000
Subject: [PATCH 134/138] fix: Compare the addresses and domains of FreeMail
 without case

---
 oa/plugins/free_mail.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/oa/plugins/free_mail.py b/oa/plugins/free_mail.py
index d023c07..02b7ee6 100644
--- a/oa/plugins/free_mail.py
+++ b/oa/plugins/free_mail.py
@@ -58,7 +58,8 @@ class FreeMail(oa.plugins.base.BasePlugin):
         """Verify that the domains are valid and separate wildcard
         domains from the rest."""
         domain_re = Regex(r'^[a-z0-9.*?-]+$')
-        freemail_domains = self.get_global('freemail_domains')
+        freemail_domains = [domain.lower() for domain in
+                            self.get_global('freemail_domains')]
         freemail_temp_wc = []
         for domain in freemail_domains[:]:
             if not domain_re.search(domain):
@@ -101,7 +102,7 @@ class FreeMail(oa.plugins.base.BasePlugin):
             get_global = self.get_global
             body_emails = get_global('body_emails')
             for email in get_global('email_re').findall(part.get_payload()):
-                body_emails.add(email)
+                body_emails.add(email.lower())
             self.set_global('body_emails', body_emails)
 
     def check_freemail_replyto(self, msg, option=None, target=None):
@@ -131,12 +132,12 @@ class FreeMail(oa.plugins.base.BasePlugin):
                     return False
         try:
             from_email = get_global(
-                'email_re').search(msg.msg['From']).group()
+                'email_re').search(msg.msg['From']).group().lower()
         except (AttributeError, TypeError, KeyError):
             from_email = ''
         try:
             reply_to = get_global(
-                'email_re').search(msg.msg['Reply-To']).group()
+                'email_re').search(msg.msg['Reply-To']).group().lower()
         except (AttributeError, TypeError, KeyError):
             reply_to = ''
         from_email_frm = self._is_freemail(from_email)
@@ -367,12 +368,14 @@ class FreeMail(oa.plugins.base.BasePlugin):
         """
         if not email:
             return False
-        email_domain = email.rsplit('@')[1]
+        email = email.lower()
+        email_domain = email.rsplit('@', 1)[-1]
         try:
             freemail_re = self.get_global('freemail_domains_re')
         except KeyError:
             freemail_re = None
-        freemail_whitelist = self.get_global('freemail_whitelist')
+        freemail_whitelist = [entry.lower() for entry in
+                              self.get_global('freemail_whitelist')]
         freemail_domains = self.get_global('freemail_domains')
 
         if email in freemail_whitelist:
-- 
2.43.0


From ecaf83f0b7a51ea1a6deca3fde39e9de9ecb59c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:34 +0000
Subject: [PATCH 135/138] fix: Search the freemail addresses in the decoded
 text of the parts

---
 oa/plugins/free_mail.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/plugins/free_mail.py b/oa/plugins/free_mail.py
index 02b7ee6..2d8186e 100644
--- a/oa/plugins/free_mail.py
+++ b/oa/plugins/free_mail.py
@@ -101,7 +101,7 @@ class FreeMail(oa.plugins.base.BasePlugin):
         if part.get_content_type() in ("text/plain", "text/html"):
             get_global = self.get_global
             body_emails = get_global('body_emails')
-            for email in get_global('email_re').findall(part.get_payload()):
+            for email in get_global('email_re').findall(payload or ""):
                 body_emails.add(email.lower())
             self.set_global('body_emails', body_emails)
 
-- 
2.43.0


From 1b49b18b6675142afb2e450aba31664c04949a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:34 +0000
Subject: [PATCH 136/138] fix: Try all the freemail addresses with the pattern
 of the FreeMail rules

---
 oa/plugins/free_mail.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oa/plugins/free_mail.py b/oa/plugins/free_mail.py
index 2d8186e..2d395e6 100644
--- a/oa/plugins/free_mail.py
+++ b/oa/plugins/free_mail.py
@@ -215,7 +215,7 @@ class FreeMail(oa.plugins.base.BasePlugin):
         for email in header_emails:
             if self._is_freemail(email):
                 if check_re and not check_re.search(email):
-                    return False
+                    continue
                 elif check_re and check_re.search(email):
                     self.ctxt.log.debug(
                         "FreeMail::Plugin check_freemail_from"
@@ -268,7 +268,7 @@ class FreeMail(oa.plugins.base.BasePlugin):
         for email in header_emails:
             if self._is_freemail(email):
                 if check_re and not check_re.search(email):
-                    return False
+                    continue
                 elif check_re and check_re.search(email):
                     self.ctxt.log.debug(
                         "FreeMail::Plugin check_freemail_header"
-- 
2.43.0


From e0b809487c054843d6d0101dce563c55841dd883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:34 +0000
Subject: [PATCH 137/138] fix: Accept the wildcard ? alone in freemail_domains,
 for no dot

---
 oa/plugins/free_mail.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oa/plugins/free_mail.py b/oa/plugins/free_mail.py
index 2d395e6..5f99318 100644
--- a/oa/plugins/free_mail.py
+++ b/oa/plugins/free_mail.py
@@ -66,9 +66,9 @@ class FreeMail(oa.plugins.base.BasePlugin):
                 freemail_domains.remove(domain)
                 self.ctxt.log.warn(
                     "FreeMail::Plugin Invalid freemail domain: %s", domain)
-            if '*' in domain:
+            if '*' in domain or '?' in domain:
                 temp = domain.replace('.', '\.')
-                temp = temp.replace('?', '.')
+                temp = temp.replace('?', '[^.]')
                 temp = temp.replace('*', '[^.]*')
                 freemail_temp_wc.append(temp)
         if freemail_temp_wc:
-- 
2.43.0


From d0b584b915326bc3a2b2f42132f2b08ddd84bc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:34 +0000
Subject: [PATCH 138/138] fix: no-reply@ is a bulk sender for the FreeMail
 plugin, too

---
 oa/plugins/free_mail.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/plugins/free_mail.py b/oa/plugins/free_mail.py
index 5f99318..c938a4a 100644
--- a/oa/plugins/free_mail.py
+++ b/oa/plugins/free_mail.py
@@ -28,7 +28,7 @@ SKIP_REPLYTO_FROM = Regex(r"""
     | ^double-bounce
     | ^(?:sentto|owner|return|(?:gr)?bounced?)-.+
     | -(?:request|bounces?|admin|owner)
-    | \b(?:do[._-t]?)?no[._-t]?repl(?:y|ies)
+    | \b(?:do[._t-]?)?no[._t-]?repl(?:y|ies)
     | .+=.+
   )\@
 """, re.X | re.I)
-- 
2.43.0

