"""Writes /verif/properties.jsonl (one-off author's tool; run after editing)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "The spam verdict is exactly the sum of the scores of the rules that hit",
  "After a message is scanned its score equals the sum of the effective scores of exactly those evaluated rules recorded as hits (rules that did not hit contribute nothing, each hit counts once, no other rule counts), and clearing the matches and scanning again gives the same result. "
  "The message is called spam if and only if that score is greater than or equal to required_score, and every place that states the verdict (X-Spam headers, YESNO/YESNOCAPS/SCORE/REQD tags, spam/ham header selection, daemon Spam: line) agrees with it.",
  ["inputs", "configurations", "histories"],
  "All rule sets mixing rule types, positive/negative/zero/fractional scores and thresholds, all messages, repeated scans of one message object.",
  "Tests check a handful of single-rule configurations with scores far from the threshold; sums, boundary equality, negative scores and re-scans are not sampled.",
  ["oa/rules/ruleset.py", "oa/message.py", "oa/protocol/check.py", "oa/protocol/process.py"],
  [("score accumulation", "RuleSet.match"), ("verdict threshold", "RuleSet._interpolate / get_adjusted_message / CheckCommand")],
  state=[("msg.score", "running score", "oa/message.py"), ("msg.rules_checked", "outcome of every evaluated rule", "oa/message.py")],
  observe=["RuleSet.match return, generated headers, daemon response"])

p("C02", "Exactly the right rules are evaluated, once each, in priority order",
  "For every loaded configuration the rules evaluated on a message are exactly the defined rules whose name does not start with two underscores and whose effective score is not zero, each evaluated once per scan, in the order of their priority values from highest to lowest with equal priorities keeping configuration order. "
  "The effective score is the configured single score, or the one of four scores selected by use_bayes/use_network, defaulting to 1 (or -1 for rules flagged nice), and is zero when a tflag (net, noautolearn, learn, userconf) excludes the rule under the current options.",
  ["configurations", "inputs"],
  "All combinations of rule names, scores (1 or 4 values), priorities (negative, missing, malformed), tflags and use_bayes/use_network/autolearn/user_config settings.",
  "Unit tests mock the pieces; no test sees the order in which rules really run or crosses tflags with the advanced scores.",
  ["oa/rules/base.py", "oa/rules/ruleset.py", "oa/rules/parser.py"],
  [("effective score", "BaseRule.preprocess"), ("selection", "BaseRule.should_check / RuleSet.add_rule"), ("ordering", "RuleSet.post_parsing")],
  observe=["order of evaluation recorded by an eval-rule plugin; RuleSet.checked"])

p("C03", "Meta rules compute their boolean/arithmetic expression over sub-rule results",
  "A meta rule hits on a message exactly when its expression (&&, ||, !, parentheses, comparison and arithmetic over rule names and numbers) is true (nonzero) when every named rule is replaced by that rule's own result on the same message (for a meta rule the value of its expression), wherever the named rules are defined, whether or not they are otherwise evaluated, and through any nesting of meta rules. "
  "A meta rule naming an undefined rule, or part of a reference cycle, is rejected when the configuration is loaded (an error in paranoid mode, otherwise only that rule is dropped) and never loops or disturbs other rules.",
  ["configurations", "inputs"],
  "All expressions over the documented operators, all acyclic and cyclic reference graphs up to the documented nesting limit, all truth assignments of the leaves.",
  "Tests use a few fixed expressions; operator precedence, negation placement, nesting, name prefixes and cycles are unbounded.",
  ["oa/rules/meta.py", "oa/rules/ruleset.py"],
  [("translation", "MetaRule.postparsing"), ("rejection", "RuleSet.call_postparsing")],
  observe=["msg.rules_checked for metas; loaded rule names"])

p("C04", "Perl-style rule patterns match what the same Perl pattern would match",
  "A rule pattern written with any supported delimiter, optional m prefix and the flags i, m, s, x matches a text exactly when the enclosed regular expression with those flags matches somewhere in it; =~ requires a match and !~ requires the absence of one. "
  "Malformed patterns are reported as an invalid regex for that rule only, and patterns behave the same in lazy and precompiled mode.",
  ["inputs", "configurations"],
  "All delimiters, flag subsets, patterns including escaped delimiters, delimiters inside the pattern, patterns beginning or ending with flag letters or delimiters, inline groups (?i:...), \\b?, (?>...), and all texts.",
  "Tests cover a fixed table of conversions; the cross product of delimiter, first pattern character, flags and text is not sampled.",
  ["oa/regex.py", "oa/rules/body.py", "oa/rules/header.py"],
  [("delimiter and flag parsing", "perl2re"), ("lazy compile", "Regex.compile")],
  observe=["rule hits through PADParser + RuleSet.match; perl2re(...).match"])

p("C05", "Header rules see exactly the named headers, decoded as the modifier says",
  "A header rule matches iff its pattern matches one of the values of the named header in the top-level header section (case-insensitively named, RFC 2047-decoded and unfolded as documented; :raw undecoded, :addr the first address, :name the first display name), exists: matches iff such a header is present, ToCc and MESSAGEID and ALL look at exactly their documented header sets, and mimeheader rules look at the headers of the MIME parts. "
  "Header rules never match because of text in the body, in another header, or in a nested message.",
  ["inputs", "configurations"],
  "All header names, multiplicities, foldings, encodings (B/Q, charsets, mixed), address forms, and all modifiers and operators.",
  "Tests use single, simple headers; duplicates, folding, encoding mixes and modifiers crossing names are sampled at a few points.",
  ["oa/rules/header.py", "oa/message.py"],
  [("rule dispatch", "HeaderRule.get_rule"), ("header decoding", "Message.get_decoded_header / _decode_header / get_addr_header / get_name_header")],
  observe=["rule hits through PADParser + RuleSet.match"])

p("C06", "Body, rawbody, full and uri rules see the documented view of the decoded message",
  "For any MIME structure, transfer encoding, charset and line-ending style carrying the same text, body rules see the Subject followed by the decoded text of all text parts with markup removed and line breaks replaced by spaces, rawbody rules see the decoded text parts with markup and line breaks intact, full rules see the whole original message and uri rules see each URI in the decoded text parts. "
  "Non-text parts contribute nothing to body, rawbody and uri, and the result does not depend on how the text was encoded or on the end-of-line convention.",
  ["inputs"],
  "All MIME trees of text/plain, text/html and non-text parts with 7bit/8bit/quoted-printable/base64, several charsets and LF/CRLF/CR line ends.",
  "Tests use a few plain single-part messages; equivalence across encodings is a relation over pairs of inputs that no test states.",
  ["oa/message.py", "oa/rules/body.py", "oa/rules/uri.py", "oa/rules/full.py"],
  [("part iteration and decode", "Message._iter_parts"), ("text views", "Message._parse_message"), ("EOL translation", "Message.translate_line_breaks")],
  observe=["msg.text, msg.raw_text, msg.raw_msg, msg.uri_list; rule hits"])

p("C07", "Configuration follows its documented grammar and bad lines stay local",
  "Loading a list of configuration files yields the rules and options of the documented line grammar: comments and blank lines are ignored, lines inside a false ifplugin/else branch have no effect, include splices a file (relative to the including file) at that point with bounded depth, later definitions and attributes of a rule override earlier ones, lang-prefixed lines apply only for the active locale, and files apply in the documented order. "
  "An invalid line or rule raises in paranoid mode (a plugin that cannot be loaded only gives a warning there) and otherwise affects nothing but that line or rule: every other line has the same effect as if the bad one were absent.",
  ["configurations", "inputs"],
  "All sequences of configuration lines, files and include trees, with malformed lines inserted at any position, in both modes.",
  "Tests load small well-formed files; interference between a bad line and later lines and combinations of conditionals, includes and overrides are not explored.",
  ["oa/rules/parser.py", "oa/config.py", "oa/conf.py"],
  [("line interpreter", "PADParser._handle_line"), ("rule construction", "PADParser.get_ruleset"), ("file order", "get_config_files")],
  observe=["parser.results, ruleset.checked/not_checked, effective options"])

p("C08", "Effective configuration depends only on the files loaded, not on earlier loads",
  "Every option takes the value its type prescribes from the lines given (int, float, bool, string, comma list, appended list, clear), starting from its default, for the core and for each loaded plugin. "
  "Loading a configuration any number of times in one process, before or after other configurations, in other rule sets, for other users or after a daemon reload, gives the same effective options, networks, headers and reports as loading it in a fresh process.",
  ["configurations", "histories"],
  "All option names and values of core and bundled plugins, all histories of loads of different configurations in one process.",
  "Each test loads one configuration in a fresh process; state leaking between loads needs a history of at least two.",
  ["oa/conf.py", "oa/networks.py", "oa/context.py", "oa/server.py", "oa/plugins/whitelist_subject.py"],
  [("option defaults", "Conf.__init__"), ("option setters", "Conf.set_*_option"), ("network lists", "NetworkList")],
  state=[("plugin_data", "effective options per context", "oa/context.py")],
  observe=["ctxt.conf[...] and plugin options after each load; networks membership"])

p("C09", "Network lists are first-match; relays split at the first untrusted hop",
  "An address belongs to a configured network list iff the first configured entry that contains it is not negated with ! (loopback is always trusted and internal), partial and CIDR notations denote the documented ranges, and invalid entries change nothing. "
  "Walking the Received relays from the newest, relays are trusted up to and excluding the first that is not in trusted_networks (and did not authenticate), everything older is untrusted, internal relays are the analogous prefix for internal_networks, and each relay appears in exactly one of trusted/untrusted and exactly one of internal/external, in header order.",
  ["inputs", "configurations"],
  "All lists of network entries (v4, v6, CIDR, partial, negated, overlapping, malformed) and all relay chains.",
  "Tests check single entries and short chains; order-dependence among overlapping entries and long mixed chains is combinatorial.",
  ["oa/networks.py", "oa/message.py", "oa/context.py"],
  [("membership", "NetworkListBase.__contains__"), ("parsing", "NetworkList._extract_network"), ("partition", "Message._parse_relays")],
  observe=["ip in networks.trusted/internal/msa; msg.trusted_relays etc."])

p("C10", "Relay fields are read correctly from Received headers and never invented",
  "For every Received header in a supported MTA format the extracted ip, rdns, helo, by, ident, envfrom, auth and id are the ones the MTA wrote, in header order, and headers in formats documented as ignored produce no relay. "
  "For arbitrary header text the parser terminates without error, every relay it reports has a syntactically valid IP address, and no field contains text that does not occur in the header.",
  ["inputs"],
  "All supported MTA formats with all field values, and arbitrary/mutated header text.",
  "Tests hold one example per format; field values with unusual characters, missing pieces and mutated headers are unbounded.",
  ["oa/received_parser.py"],
  [("format recognisers", "ReceivedParser")],
  observe=["ReceivedParser(...).received; msg.get_header_ips()"])

p("C11", "Messages are returned intact, changed only as the configuration says",
  "The adjusted message for ham, or with report_safe 0, or in headers-only mode, is the original message with only the configured header additions and removals applied in order (all, then spam or ham by verdict; additions before removals in each group), plus an X-Spam-Report header on spam with report_safe 0; for spam with report_safe 1 or 2 it is a new multipart whose last part is the complete original (with report_safe 1 of the documented type message/rfc882, with 2 text/plain) preceded by the report, and the other configured headers are on the wrapper. "
  "No original header or body text is lost, duplicated or altered (beyond line-ending style, header folding and encoded-word form) except for headers the configuration removes, and the rewritten message is parseable mail.",
  ["inputs", "configurations"],
  "All messages (any MIME structure, non-ASCII text, odd headers), all lists of add_header/remove_header directives, all report_safe values, both verdicts.",
  "Tests compare a few fixed outputs; preservation of arbitrary content under all three modes is a property over all messages.",
  ["oa/rules/ruleset.py", "oa/protocol/process.py"],
  [("rewriting", "RuleSet.get_adjusted_message / _adjust_headers / _get_bounce_message")],
  observe=["RuleSet.get_adjusted_message output, split into headers, body and parts"])

p("C12", "Report templates and tags expand to the facts of this scan",
  "Every documented _TAG_ in report, unsafe_report and add_header texts expands to its documented value for the message just scanned (score, threshold, yes/no, list of hit rules, their scores, summary, preview, plugin tags), text outside tags - including percent signs and unknown characters - is reproduced literally, and unknown tags do not break the report. "
  "Clearing a template and adding lines yields exactly the added lines in order.",
  ["inputs", "configurations"],
  "All template texts built from literals and tags, all scan outcomes.",
  "Tests expand each tag once in fixed text; literal text with formatting characters, repeated and unknown tags and changing outcomes are not covered.",
  ["oa/rules/ruleset.py", "oa/conf.py"],
  [("tag conversion", "RuleSet._convert_tags"), ("interpolation", "RuleSet._interpolate"), ("reports", "get_matched_report / get_summary_report")],
  observe=["RuleSet.get_report, get_adjusted_message headers"])

p("C13", "A scan's result depends only on the configuration and that message",
  "With any set of bundled plugins loaded, scanning a message gives the same hits, score, tags and report whatever messages were scanned before it in the same process and however often it is scanned, and evaluating one rule does not change what another rule sees (for databases that learn, given the same database contents and DNS answers).",
  ["histories", "schedules", "configurations", "inputs"],
  "All sequences and interleavings of messages through one loaded rule set with all plugins.",
  "Every test scans one message per process; leaks through plugin instances, class attributes and the shared context need at least two messages.",
  ["oa/plugins", "oa/context.py", "oa/message.py"],
  [("per-message storage", "MessageContext plugin data"), ("plugin state reset", "check_start/check_end hooks of each plugin")],
  observe=["hits, score, plugin tags and report of each scan compared with a fresh process/rule set"])

p("C14", "No message and no failing rule can abort a scan or disturb other rules",
  "For any byte sequence presented as a message the scan completes and produces a verdict, and when one rule, eval function or the processing of one MIME part fails internally, that rule counts as not hit while every other rule's result, the score from the other hits and the end-of-check and auto-learn processing are the same as without the failing rule. "
  "This holds with every bundled plugin loaded.",
  ["inputs", "fault_sequences", "configurations"],
  "All messages including malformed MIME, broken encodings, missing or corrupt attachments; all subsets of rules raising any exception.",
  "Tests feed well-formed messages and never inject failures; crash inputs are unbounded.",
  ["oa/rules/ruleset.py", "oa/rules/eval_.py", "oa/message.py", "oa/plugins"],
  [("per-rule containment", "RuleSet.match / EvalRule.match"), ("decoding with fallback", "Message._iter_parts / _decode_header")],
  observe=["no exception escapes Message(...) / RuleSet.match; hits differential"])

p("C15", "Daemon responses are well-formed and describe the submitted message",
  "Every request of the spamd protocol (PING, SKIP, CHECK, SYMBOLS, REPORT, REPORT_IFSPAM, PROCESS, HEADERS, TELL) gets exactly the documented response: protocol line with status code, a Spam header with verdict, score and threshold where documented, a Content-length equal to the number of bytes of the body that follows, and the documented body for that command. "
  "The response agrees with scanning the same message offline with the same configuration, regardless of message size, character set, how the request bytes are segmented, and compression.",
  ["inputs", "schedules"],
  "All commands, message contents and sizes, header options, and all ways of splitting the request into network segments.",
  "Tests issue a few small ASCII requests written in one piece; multi-segment and non-ASCII requests are not sampled.",
  ["oa/server.py", "oa/protocol"],
  [("request parsing", "RequestHandler / BaseProtocol.handle"), ("response framing", "oa/protocol/*.py")],
  observe=["raw bytes on the client socket; offline RuleSet on the same message"])

p("C16", "Concurrent, broken and hostile clients get isolated, correct service",
  "With many clients connected at once each gets exactly the response to its own request, as if it were the only client, with a single process and with preforked workers. "
  "A client that sends garbage, an unknown command, a malformed header or a truncated request, or disconnects at any point, gets an error or a closed connection and has no effect on the answer to any other request; the daemon keeps serving. (A client that keeps an unfinished request open does hold up the process that serves it.)",
  ["schedules", "fault_sequences", "inputs"],
  "All interleavings of concurrent requests, all points of disconnect and all malformed requests.",
  "The functional tests use one sequential client.",
  ["oa/server.py", "oa/protocol/base.py"],
  [("per-connection handler", "RequestHandler"), ("servers", "Server / PreForkServer")],
  observe=["client-side history of (request, response) against the sequential oracle"])

p("C17", "A configuration reload is atomic and complete",
  "When the daemon is told to reload (SIGUSR1), every response is computed entirely under the configuration before the reload or entirely under the one after it, never a mixture or an empty rule set; no request is lost or fails because of the reload; and once one response shows the new configuration (per worker), later ones do too. "
  "After a reload the behaviour equals that of a daemon freshly started on the new files, including removed rules, options, networks and per-user rules (a user's preferences are read when that user is first served after it).",
  ["schedules", "histories", "configurations"],
  "All interleavings of reloads with requests, all pairs of configurations, repeated reloads.",
  "Tests reload once while idle.",
  ["oa/server.py", "scripts/oad.py"],
  [("reload", "Server.load_config"), ("ruleset lookup", "Server.get_user_ruleset")],
  observe=["responses carrying configuration generation markers in rule names and scores"])

p("C18", "Per-user rules apply only when allowed and only to that user",
  "When allow_user_rules is off a request's User header has no effect on the result; when it is on, requests for a user are judged by the global configuration plus that user's preferences file, requests for other users or no user are not affected by it, and repeated or interleaved requests of different users always give each user the same results as if that user were alone. "
  "A user name can only select a preferences file belonging to a user name, never an arbitrary path.",
  ["histories", "configurations", "inputs", "schedules"],
  "All sets of users and preference files, orders and interleavings of requests, and all user name strings.",
  "Tests check one user with one rule.",
  ["oa/server.py", "oa/config.py"],
  [("user rule sets", "Server.get_user_ruleset"), ("path", "get_userprefs_path")],
  observe=["responses per user vs. offline oracle; files opened"])

p("C19", "Reporting, revoking and learning requests reach each plugin exactly as asked",
  "Each report (or revoke) request for a message, from the command line or through TELL with the documented Message-class/Set/Remove headers, invokes every loaded plugin's report (or revoke) action exactly once with that message, invokes nothing else, and TELL answers DidSet/DidRemove for exactly what was requested. "
  "Plugin callbacks run in load order for every hook, once per event; a plugin that inhibits further callbacks stops only that chain, and unloading or redefining a plugin removes all of its registrations.",
  ["histories", "inputs", "configurations"],
  "All combinations of message class, set/remove targets and plugin sets, all sequences of load/unload/redefine, inhibit at any position.",
  "Tests check single mocked calls of one hook.",
  ["oa/context.py", "oa/protocol/tell.py", "oa/plugins/base.py", "scripts/match.py"],
  [("callback chains", "GlobalContext.hook_*"), ("TELL", "TellCommand.handle"), ("plugin registry", "load_plugin/unload_plugin")],
  observe=["event log of a recording plugin"])

p("C20", "Short-circuiting stops the scan at the rule and gives the configured verdict",
  "When a rule configured with shortcircuit on/spam/ham (the last such line for the rule counts) hits, no later rule is evaluated, the hit rule's own score plus the shortcircuit spam or ham score (if so configured) is in the final score, the rule is listed among the hits and in the reports, and the shortcircuit tags name it. "
  "When no such rule hits, or it is configured off, the result is identical to a configuration without shortcircuit, and end-of-check processing runs in both cases.",
  ["configurations", "inputs", "histories"],
  "All sets of shortcircuited rules with priorities, classifications and scores; all hit patterns; sequences of messages.",
  "Tests use one rule with one classification.",
  ["oa/plugins/short_circuit.py", "oa/rules/ruleset.py"],
  [("wrapping", "ShortCircuit plugin"), ("stop", "StopProcessing handling in RuleSet.match")],
  observe=["rules evaluated (recorder), score, tags, report"])

p("C21", "Automatic learning is triggered exactly by its documented score thresholds",
  "The learning score of a message is the sum of the scores of the rules that hit it, without those flagged noautolearn, userconf or learn. It is handed to the learner as spam iff that score is at least bayes_auto_learn_threshold_spam, the hits on headers and on the body each come to at least 3 points (metas count for both unless flagged net; no minimum when a hit is flagged autolearn_force), the learn rules come to at least -1 and the total score is above required_score; as ham iff the learning score is below bayes_auto_learn_threshold_nonspam, the learn rules come to at most 1 and the total score is below required_score. With bayes_auto_learn_on_error a message that Bayes already classifies so (BAYES_99, BAYES_00) is not learned. It is not learned otherwise, nor without the plugin. "
  "Only rules that hit on this message count, and each message is learned at most once per scan.",
  ["inputs", "configurations"],
  "All sets of rule hits, flags, scores and thresholds.",
  "Tests mock the decision function's inputs and do not run it on a scanned message.",
  ["oa/plugins/auto_learn_threshold.py", "oa/context.py"],
  [("decision", "AutoLearnThreshold.auto_learn_discriminator")],
  observe=["calls to the learner recorded by a stub learner plugin"])

p("C22", "Bayes learning conserves counts and classification stays within bounds",
  "Learning a message as spam or ham adds one to that class's message count and to the class count of each of its distinct tokens, learning it again the same way changes nothing, learning it the other way moves it, and forgetting it restores the counts; counts never go negative and unrelated tokens do not change. "
  "Token probabilities and the combined score always lie in [0,1], the check_bayes ranges are disjoint and cover the score, tokenising terminates on every text, a token learned only in spam (ham) never counts as hammy (spammy), and with as many spam as ham messages learned a message whose known tokens were all learned as spam (ham) scores above (below) one half. The score is the chi-square combination of the probabilities of the 150 most significant known tokens, and there is none before bayes_min_spam_num and bayes_min_ham_num messages are learned. What is learned or scanned is the text of that message, whatever other messages are parsed in between.",
  ["histories", "inputs"],
  "All histories of learn/forget operations on all messages.",
  "Tests mock the store and check single calls.",
  ["oa/plugins/bayes.py"],
  [("store", "Store"), ("learning", "BayesPlugin.learn_message/forget_message"), ("combining", "Chi combining / _compute_prob")],
  observe=["SQL store contents (sqlite through SQLAlchemy) after each operation"])

p("C23", "Auto-whitelist keeps a separate running average per sender and address block",
  "For each (sender address, originating network, signer) the history holds the number and sum of the pre-adjustment scores of exactly the messages scanned for that key, and the adjustment added to a message is (mean - score) * auto_whitelist_factor, zero when there is no history. "
  "A history recorded before the sender's network was known moves to the first network seen for that sender and signer. Messages of one sender (or for one user) never change another sender's (user's) history, and several messages scanned one after another add up exactly.",
  ["histories"],
  "All histories of sequential scans from many senders and networks.",
  "The functional tests need a MySQL server and are not run; unit tests mock the database.",
  ["oa/plugins/awl.py"],
  [("history lookup and update", "AWL plugin"), ("address masking", "ip_to_awl_key")],
  observe=["table contents after each scan through a stand-in database driver"])

p("C24", "DNS is queried only for permitted names and only about untrusted relays",
  "A DNS query is sent iff DNS is available and the closest enclosing domain listed in dns_query_restriction allows the name (compared without case or a trailing dot; names not listed are allowed); a denied, unavailable, invalid or failed query behaves as an empty answer, and queries use the configured servers, port, timeout and lifetime. "
  "DNS blocklist rules look up exactly the addresses of untrusted relays (reversed) in the configured zone, never private or trusted ones, nothing at all when skip_rbl_checks is set, and hit exactly when an answer satisfies the rule's sub-test.",
  ["inputs", "configurations", "fault_sequences"],
  "All restriction lists and query names, relay chains and resolver answers/failures.",
  "Tests check a few names with one restriction and mock the resolver per call.",
  ["oa/dns_interface.py", "oa/plugins/dns_eval.py", "oa/rules/ruleset.py"],
  [("restriction", "DNSInterface.is_query_restricted"), ("query", "DNSInterface.query"), ("blocklists", "DNSEval plugin")],
  observe=["queries reaching a recording resolver; rule hits"])

p("C25", "White- and blacklists match addresses by their globs, and nothing else",
  "An address is whitelisted (blacklisted) iff some glob of that list's configuration lines matches the whole address case-insensitively, with * and ? as the only wildcards (a glob without @ means any user at it) and all other characters literal; the from, to, rcvd, more_spam_to and all_spam_to lists are kept separate, and a listed address never affects addresses not matched. "
  "A whitelist_from_rcvd entry also needs the first untrusted relay (or only trusted ones) to be the named address, network or a host in the named domain; the entry's addresses count as forged when no relay matches. A message's URI hosts are in a host list as decided by the closest listed parent domain, a leading ! excludes a host and delist_uri_host takes one off again.",
  ["inputs", "configurations"],
  "All glob lists and addresses including regex metacharacters, case, and several From/To addresses; all relays and URI host lists.",
  "Tests use a few plain globs.",
  ["oa/plugins/wlbl_eval.py"],
  [("list parsing", "WLBLEval.parse_list"), ("matching", "WLBLEval.check_*")],
  observe=["hits of the check_from_in_whitelist, check_to_in_*, check_forged_in_whitelist and check_uri_host_* rules"])

p("C26", "URIs and their details are extracted completely and matched per link",
  "Every http, https, ftp, www. and ftp. URI delimited in the decoded text parts is in the message's URI list, nothing is listed that does not occur in the message, and every anchor's raw target, decoded form, domain, scheme and whole link text (also inside nested markup and character references) are recorded for that link target only. "
  "A uri_detail rule hits iff there is a single link target for which all of its conditions hold, a URI without an anchor having no text; the IP-mismatch, redirector and truncation rules consider every link, and an unusable target hides nothing else.",
  ["inputs", "configurations"],
  "All texts and HTML documents with embedded links and all conjunctions of conditions.",
  "Tests use one or two links and conditions.",
  ["oa/message.py", "oa/html_parser.py", "oa/plugins/uri_detail.py", "oa/plugins/uri_eval.py"],
  [("URI regex", "URL_RE"), ("link collection", "html_parser.HTML"), ("conditions", "UriDetailRule")],
  observe=["msg.uri_list, msg.uri_detail_links, rule hits"])

p("C27", "Compiled (serialized) rule sets behave like freshly parsed ones",
  "Serializing a loaded rule set and restoring it in another process gives, after the match tool's post processing, a rule set that produces the same hits, score, report and adjusted message on every message as the freshly parsed configuration and keeps every option, network and DNS setting. "
  "Serializing never changes the behaviour or the options of the live rule set, at whatever point of its life it is done, and serializing the restored rule set again is equivalent.",
  ["configurations", "inputs"],
  "All rule sets of bundled plugins and all messages.",
  "No test serializes a rule set.",
  ["scripts/compile.py", "scripts/match.py", "oa/context.py", "oa/dns_interface.py", "oa/rules", "oa/plugins"],
  [("state capture", "_Context.__getstate__/__setstate__, DNSInterface.__getstate__"), ("restoring", "scripts/match.py call_post_parsing")],
  observe=["options, hits, score, report, message, queries of fresh vs live-after-serialization vs restored, each in its own process"])

p("C28", "Replace-tags expand patterns exactly as their definitions say",
  "A rule listed in replace_rules (of type body, rawbody, full, header or uri) matches exactly what its pattern matches after every tag - a defined name between the configured replace_start and replace_end - is replaced by the text of the definition, with the text of the pre decoration named in the pattern before each tag, the one of the post decoration after each tag and the one of the inter decoration between two adjacent tags, and the decorations themselves removed wherever they are in the pattern. "
  "Texts of tags are not expanded again, tags and decorations that are not defined stay as they are, and rules that are not listed are not changed. "
  "The expansion does not depend on the order of the lines (definitions, rules, replace_rules, replace_start and replace_end), on the file they are in, nor on a rule being listed twice. Each name is defined once, and a pattern uses at most one decoration of each kind.",
  ["configurations", "inputs"],
  "All sets of tag definitions and patterns.",
  "Tests expand two or three fixed tags.",
  ["oa/plugins/replace_tags.py"],
  [("expansion", "ReplaceTags.finish_parsing_start")],
  observe=["rule hits; patterns"])

p("C29", "The command line gives each input the verdict of the library",
  "For each message given on standard input (also as -), as files or in directories, scripts/match.py prints the adjusted message, with -t then also the report, with -R the report only, exactly as the library gives them for that message alone with the same configuration files, in input order (messages of one directory in any order). Bytes that are not UTF-8 are dropped. With -r or -k each message is reported or revoked, once, nothing else is done with it, and the number of messages is printed. "
  "The files used are the ones ending in .pre and .cf directly inside the given directories, each once, in name order: site .pre, standard .pre and .cf, site .cf, and user preferences (the given path, or ~/.spamassassin/user_prefs) last when they exist; one directory given for both, whatever way it is written, is read once. "
  "A missing directory or message, no configuration files, an include loop, or in paranoid mode an invalid line end the tool with a diagnostic and a non-zero status, without a verdict for anything that could not be evaluated. -D, -dl, --show-unknown, the order of the arguments and the locale (one that can print UTF-8) do not change what is printed.",
  ["inputs", "configurations", "histories"],
  "All lists of input messages and configuration directories.",
  "Functional tests call it with one message on stdin.",
  ["scripts/match.py", "oa/config.py"],
  [("driver", "scripts/match.py main"), ("file order", "get_config_files")],
  observe=["stdout, exit status, files"])

p("C30", "Sender authentication says what signatures and published records say",
  "A message counts as signed iff its topmost DKIM-Signature is of the domain of the From author's address (the first address of a From field), as signed and valid iff that signature also verifies with the key published in the DNS (asked through the configured DNS interface) and the key has at least dkim_minimum_key_bits bits; a signature that does not verify is never a valid one, and changing anything signed makes it invalid. Rules that name domains compare the signing domain's whole labels, without case, up to the organisational domain. "
  "whitelist_from_dkim and def_whitelist_from_dkim need a valid signature, a glob matching the author's whole address, an author in the signing domain and, if the entry names a domain, a signature of that one. "
  "The SPF rules report the results of the published records for the HELO name and the envelope sender of the first external relay, and nothing when there is no external relay; with ignore_received_spf_header no header of the message changes them; whitelist_from_spf and def_whitelist_from_spf need a pass and a glob matching the whole envelope sender.",
  ["inputs", "configurations"],
  "All messages with signatures by any key, tampered or not, all DNS zones and relay chains.",
  "Tests mock the verification libraries.",
  ["oa/plugins/dkim.py", "oa/plugins/spf.py", "oa/message.py"],
  [("DKIM", "DKIMPlugin.check_dkim_*"), ("SPF", "SpfPlugin.check_for_spf_*"), ("envelope sender", "Message._parse_sender")],
  observe=["rule hits; DNS questions"])

p("C31", "Image and PDF rules describe exactly the attachments of the message",
  "Image rules count the parts of an image type (or of all), compare the exact name of the Content-Type (also in the RFC 2231 form), compare the sizes and sum the areas of the readable images of that type - each part counts, also when the same file is attached again or under another type. "
  "PDF rules do the same for application/pdf parts: number, names (exact or regular expression), MD5 sum of the file and of the text of a page (in any case), number and area of the images on the pages, encryption, total size, and the named detail (author, creator, producer, title) of some file. "
  "A minimum without a maximum has no upper end, a maximum of 0 is one. Files that are damaged or encrypted and parts without a name never hide anything about the other ones, and nothing of a message is left for the next one.",
  ["inputs", "configurations"],
  "All messages with images and PDF files, nested at any depth, and all arguments.",
  "Tests use one or two fixed files.",
  ["oa/plugins/image_info.py", "oa/plugins/pdf_info.py"],
  [("images", "ImageInfoPlugin.extract_metadata, image_*"), ("PDF files", "PDFInfoPlugin._save_stats, pdf_*")],
  observe=["rule hits"])

p("C32", "FreeMail rules hit exactly for the freemail addresses of the message",
  "An address is a freemail address iff its domain matches an entry of freemail_domains (without case, the wildcards * and ? never match a dot; invalid entries are ignored), neither it nor its domain is in freemail_whitelist, and its local part is not one of a role or a bounce. "
  "check_freemail_from and check_freemail_header hit iff some address of the sender headers (with the envelope sender), or of the named header, is one and, with a pattern, matches it. "
  "check_freemail_body looks at the decoded text of the plain and HTML parts; with freemail_skip_when_over_max it never hits when the number of different addresses or freemail addresses there reaches its maximum. "
  "check_freemail_replyto hits iff From and Reply-To are different freemail addresses or, with 'reply', iff the address answers go to and one in the body are. "
  "Messages of bulk envelope senders are skipped with freemail_skip_bulk_envfrom; the report names the address only with freemail_add_describe_email; nothing of a message is left for the next one.",
  ["inputs", "configurations", "histories"],
  "All lists of domains and options, all messages.",
  "Tests use one or two fixed addresses.",
  ["oa/plugins/free_mail.py"],
  [("address test", "FreeMail._is_freemail"), ("rules", "FreeMail.check_freemail_*")],
  observe=["rule hits; report"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=True) + "\n")
assert all(len(x["title"]) <= 80 for x in P), [x["title"] for x in P if len(x["title"]) > 80]
print(len(P))
