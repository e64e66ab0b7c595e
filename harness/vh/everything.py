"""A configuration with every bundled plugin loaded and a rule for every eval function.

Left out: pyzor (Python 2 client), dump_text (prints), AWL (needs MySQL; C23 runs it on a stand-in).
"""
PLUGINS = ["auto_learn_threshold.AutoLearnThreshold", "body_eval.BodyEval", "dkim.DKIMPlugin",
           "dns_eval.DNSEval", "free_mail.FreeMail", "header_eval.HeaderEval",
           "image_info.ImageInfoPlugin", "mime_eval.MIMEEval", "noop.NoOPPlugin",
           "noop.MIMEHeaderPlugin", "noop.CheckPlugin", "pdf_info.PDFInfoPlugin",
           "razor2.Razor2Plugin", "relay_country.RelayCountryPlugin", "relay_eval.RelayEval",
           "replace_tags.ReplaceTags", "short_circuit.ShortCircuit", "spam_cop.SpamCopPlugin",
           "spf.SpfPlugin", "textcat.TextCatPlugin", "uri_detail.URIDetailPlugin",
           "uri_eval.URIEvalPlugin", "whitelist_subject.WhiteListSubjectPlugin",
           "wlbl_eval.WLBLEvalPlugin"]

EVALS = """
body_eval multipart_alternative_difference('0','99')
body_eval multipart_alternative_difference('99','100')
body_eval multipart_alternative_difference_count('0.5','1')
body_eval check_blank_line_ratio('30','100')
body_eval check_blank_line_ratio('0','10','2')
body_eval tvd_vertical_words('10','100')
body_eval check_stock_info('1')
dkim check_dkim_adsp('N')
dkim check_dkim_adsp('*')
dkim check_dkim_adsp('D')
dkim check_dkim_adsp('U')
dkim check_dkim_adsp('1','example.com')
dkim check_dkim_signed()
dkim check_dkim_signed('example.com')
dkim check_dkim_valid()
dkim check_dkim_valid('example.com')
dkim check_dkim_valid_author_sig()
dkim check_dkim_valid_author_sig('example.com')
dkim check_dkim_dependable()
dkim check_for_dkim_whitelist_from()
dkim check_for_def_dkim_whitelist_from()
dns check_rbl('z1','rbl.test.')
dns check_rbl('z1-lastexternal','rbl.test.','127.0.0.2')
dns check_rbl('z1-firsttrusted','rbl.test.')
dns check_rbl('z1-untrusted','rbl.test.')
dns check_rbl_txt('z2','txt.test.')
dns check_rbl_sub('z1','127.0.0.2')
dns check_dns_sender()
dns check_rbl_envfrom('z3','env.test.')
dns check_rbl_from_host('z4','from.test.')
dns check_rbl_from_domain('z5','fromd.test.')
dns check_rbl_accreditor('z6','acc.test.','127.0.0.2','acc')
free check_freemail_replyto()
free check_freemail_replyto('reply')
free check_freemail_from()
free check_freemail_from('john.*')
free check_freemail_header('Reply-To')
free check_freemail_header('From','ann')
free check_freemail_body()
free check_freemail_body('ann')
hdr check_for_fake_aol_relay_in_rcvd()
hdr check_for_faraway_charset_in_headers()
hdr check_for_unique_subject_id()
hdr check_illegal_chars('Subject','0.02','2')
hdr check_illegal_chars('From','0.00','1')
hdr check_illegal_chars('ALL','0.01','1')
hdr check_for_forged_hotmail_received_headers()
hdr check_for_no_hotmail_received_headers()
hdr check_for_msn_groups_headers()
hdr check_for_forged_eudoramail_received_headers()
hdr check_for_forged_yahoo_received_headers()
hdr check_for_forged_juno_received_headers()
hdr check_for_matching_env_and_hdr_from()
hdr sorted_recipients()
hdr similar_recipients('0.1','1')
hdr check_for_missing_to_header()
hdr check_for_forged_gw05_received_headers()
hdr check_for_shifted_date('-9999','-24')
hdr check_for_shifted_date('24','undef')
hdr check_for_shifted_date('undef','-6')
hdr subject_is_all_caps()
hdr check_for_to_in_subject('address')
hdr check_for_to_in_subject('user')
hdr check_outlook_message_id()
hdr check_messageid_not_usable()
hdr check_header_count_range('Received','1','2')
hdr check_header_count_range('Subject','2','99')
hdr check_unresolved_template()
hdr check_ratware_name_id()
hdr check_ratware_envelope_from()
hdr gated_through_received_hdr_remover()
hdr check_equal_from_domains()
hdr received_within_months('0','6')
hdr received_within_months('6','undef')
img image_count('all',1)
img image_count('png',1,3)
img image_named('a.png')
img pixel_coverage('all',1)
img pixel_coverage('gif',1,100000)
img image_size_exact('png',3,5)
img image_size_range('all',1,1,50,50)
img image_to_text_ratio('all',0.0,10.0)
mime check_for_mime('mime_base64_count')
mime check_for_mime('mime_html_no_charset')
mime check_for_mime('mime_missing_boundary')
mime check_for_mime('mime_long_line_qp')
mime check_for_mime('mime_ascii_text_illegal')
mime check_for_mime('mime_base64_encoded_text')
mime check_for_mime('mime_qp_ratio')
mime check_for_mime('mime_bad_iso_charset')
mime check_for_mime_html()
mime check_for_mime_html_only()
mime check_mime_multipart_ratio('0.00','0.50')
mime check_msg_parse_flags('missing_head_body_separator')
mime check_msg_parse_flags('truncated_headers')
mime check_for_ascii_text_illegal()
mime check_abundant_unicode_ratio('0.02')
mime check_for_faraway_charset()
mime check_for_uppercase('50','100')
mime check_ma_non_text()
mime check_base64_length('1','500')
mime check_base64_length('79')
mime check_qp_ratio('0.01')
pdf pdf_count(1,3)
pdf pdf_image_count(1)
pdf pdf_pixel_coverage(1)
pdf pdf_named('a.pdf')
pdf pdf_name_regex('/^a/')
pdf pdf_match_md5('D41D8CD98F00B204E9800998ECF8427E')
pdf pdf_match_details('author','/x/')
pdf pdf_is_encrypted()
pdf pdf_is_empty_body(5)
razor check_razor2()
relay check_for_numeric_helo()
relay check_for_illegal_ip()
relay check_all_trusted()
relay check_no_relays()
relay check_relays_unparseable()
relay check_for_sender_no_reverse()
relay check_for_from_domain_in_received_headers('example.com','true')
relay check_for_from_domain_in_received_headers('example.net','false')
relay check_for_forged_received_trail()
relay check_for_forged_received_ip_helo()
relay helo_ip_mismatch()
relay check_for_no_rdns_dotcom_helo()
spf check_for_spf_pass()
spf check_for_spf_neutral()
spf check_for_spf_none()
spf check_for_spf_fail()
spf check_for_spf_softfail()
spf check_for_spf_permerror()
spf check_for_spf_temperror()
spf check_for_spf_helo_pass()
spf check_for_spf_helo_neutral()
spf check_for_spf_helo_none()
spf check_for_spf_helo_fail()
spf check_for_spf_helo_softfail()
spf check_for_spf_helo_permerror()
spf check_for_spf_helo_temperror()
spf check_for_spf_whitelist_from()
spf check_for_def_spf_whitelist_from()
text check_language()
uri check_for_http_redirector()
uri check_https_ip_mismatch()
uri check_uri_truncated()
wls check_subject_in_whitelist()
wls check_subject_in_blacklist()
wl check_from_in_whitelist()
wl check_to_in_whitelist()
wl check_from_in_blacklist()
wl check_to_in_blacklist()
wl check_from_in_list('whitelist_from')
wl check_to_in_all_spam()
wl check_to_in_list('blacklist_to')
wl check_mailfrom_matches_rcvd()
wl check_from_in_default_whitelist()
wl check_forged_in_whitelist()
wl check_to_in_more_spam()
wl check_forged_in_default_whitelist()
wl check_uri_host_listed('BAD')
wl check_uri_host_in_whitelist()
wl check_uri_host_in_blacklist()
""".strip().splitlines()

OPTIONS = """
ok_locales en
ok_languages en
trusted_networks 10.0.0.0/8
internal_networks 10.0.0.0/8
freemail_domains freemail.example gmail.com yahoo.com hotmail.com free.example.net
freemail_add_describe_email 1
util_rb_tld com net org example
whitelist_from *@good.example john@example.com
blacklist_from *@bad.example
whitelist_to *@ourlist.example
blacklist_to spamtrap@example.com
all_spam_to abuse@example.com
more_spam_to more@example.com
whitelist_from_rcvd *@rcvd.example relay.example
def_whitelist_from_rcvd *@defrcvd.example relay.example
whitelist_from_spf *@spf.example
def_whitelist_from_spf *@defspf.example
whitelist_from_dkim *@dkim.example
def_whitelist_from_dkim *@defdkim.example
adsp_override example.com custom_low
blacklist_uri_host bad.example
whitelist_uri_host good.example
enlist_uri_host (BAD) evil.example
whitelist_subject [ok]
blacklist_subject viagra
replace_start <
replace_end >
replace_tag A [a4]
replace_tag G [gk]
replace_inter SP \\s?
replace_rules TXT_REPL
""".strip().splitlines()

RULES = """
header HDR_SUBJ Subject =~ /offer/i
header HDR_FROM From:addr =~ /@bad\\.example$/
header HDR_NAME From:name =~ /[A-Z]/
header HDR_RAW Subject:raw =~ /=\\?/
header HDR_ALL ALL =~ /X-[A-Z]/
header HDR_TOCC ToCc =~ /example/
header HDR_MID MESSAGEID =~ /@/
header HDR_EX exists:X-Flag
mimeheader MIME_CT Content-Type =~ /html/
mimeheader MIME_RAW Content-Disposition:raw =~ /filename/
body TXT_A /free/i
body TXT_REPL /vi<A><G>r<A>/i
rawbody TXT_RAW /<[a-z]+>/i
full TXT_FULL /^From: /m
uri URI_A /example\\.(?:com|net)/
meta META_A TXT_A && !HDR_SUBJ
meta META_SUM (TXT_A + HDR_SUBJ + URI_A) > 1
meta META_LAST __HID || META_A
body __HID /hidden/
uri_detail UD_TEXT text =~ /click/i
uri_detail UD_DOM domain =~ /evil/
""".strip().splitlines()


def rules():
    """[(rule name, config line)] for every rule."""
    out = []
    for n, line in enumerate(EVALS):
        group, call = line.split(" ", 1)
        kind = "body" if n % 3 else "header"
        name = "E%03d_%s" % (n, call.split("(")[0].upper())
        out.append((name, "%s %s eval:%s" % (kind, name, call)))
    for line in RULES:
        out.append((line.split()[1], line))
    return out


def config(extra=(), skip=(), scores=True, plugins=None, order=None):
    """Configuration text; `order` permutes the rules."""
    lines = ["loadplugin oa.plugins.%s" % p for p in (PLUGINS if plugins is None else plugins)]
    lines += OPTIONS
    rs = rules()
    if order is not None:
        rs = [rs[k] for k in order]
    for name, line in rs:
        if name in skip:
            continue
        lines.append(line)
    for n, (name, line) in enumerate(rules()):
        if name in skip or not scores or name.startswith("__"):
            continue
        # sums of distinct powers are unambiguous enough to notice a lost or doubled score
        lines.append("score %s %s" % (name, (n % 37 + 1) * 0.01 * (-1 if n % 5 == 4 else 1)))
    lines += ["report S=_SCORE_ T=_TESTS_", "report _REPORT_", "report _SUMMARY_",
              "report _RELAYSTRUSTED_ _RELAYSUNTRUSTED_ _SC_ _LANGUAGES_ _PREVIEW_",
              "add_header all Status _YESNO_ _TESTS_"]
    lines += list(extra)
    return "\n".join(lines) + "\n"
