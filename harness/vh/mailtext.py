"""Reading messages textually: not with the email package the code under test uses."""
import email.header
import re


def split(raw):
    """-> (list of (name, value), body) or None when the header section is not well-formed."""
    out = []
    pos = 0
    while True:
        end = raw.find("\n", pos)
        if end < 0:
            ln, nxt = raw[pos:], len(raw)
        else:
            ln, nxt = raw[pos:end], end + 1
        if ln == "":
            return out, raw[nxt:]
        if ln[0] in " \t":
            if not out:
                return None
            out[-1] = (out[-1][0], out[-1][1] + "\n" + ln)
        elif out == [] and ln.startswith("From "):
            pass
        else:
            m = re.match(r"([!-9;-~]+)[ \t]*:(.*)\Z", ln, re.S)
            if not m:
                return None
            out.append((m.group(1), m.group(2)))
        pos = nxt
        if end < 0:
            return out, ""


def norm(value):
    """Header value: unfolded, RFC 2047 decoded, whitespace collapsed."""
    value = re.sub(r"\s*\n\s*", " ", value)
    try:
        bits = email.header.decode_header(value)
        value = u"".join(b.decode(c or "iso-8859-1", "replace") if isinstance(b, bytes) else b
                         for b, c in bits)
    except Exception:
        pass
    return re.sub(r"\s+", "", value)
