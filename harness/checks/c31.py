"""C31: what the image and PDF rules say about attachments that were made for the case."""
import base64
import hashlib
import io
import os
import re
import struct
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import PIL.Image
import PyPDF2

from vh import core, oah, mailgen

TYPES = {"png": "PNG", "gif": "GIF", "jpeg": "JPEG", "bmp": "BMP", "tiff": "TIFF"}
NAMES = ["image001.gif", "Photo 1.PNG", "a.b.jpg", "x", "test.pdf", "Test.pdf", "my bill.pdf", "r\u00e9sum\u00e9.pdf", "a;b.png", "report-2018.pdf"]
WORDS = ["Hello", "cheap pills", "invoice", "Acme Corp", "Ann", "mobile", "writer 2.0", "x"]
DETAILS = ["author", "creator", "producer", "title"]
_IMAGES = {}


def image(fmt, w, h, shade):
    k = (fmt, w, h, shade)
    if k not in _IMAGES:
        if fmt == "PNG" and shade % 2:
            _IMAGES[k] = mailgen.png(w, h)
        else:
            out = io.BytesIO()
            PIL.Image.new("L", (w, h), shade).save(out, fmt)
            _IMAGES[k] = out.getvalue()
    return _IMAGES[k]


def pdf(c):
    """A PDF file of which everything is known."""
    objs = [b"<< /Type /Catalog /Pages 2 0 R >>", None]
    kids, images = [], []

    def add(o):
        objs.append(o)
        return len(objs)
    for w, h in c["images"]:
        d = b"\x00"
        images.append(add(b"<< /Type /XObject /Subtype /Image /Width %d /Height %d /ColorSpace /DeviceGray /BitsPerComponent 8 /Length %d >>\nstream\n"
                          % (w, h, len(d)) + d + b"\nendstream"))
    form = add(b"<< /Type /XObject /Subtype /Form /BBox [0 0 1 1] /Length 0 >>\nstream\n\nendstream") if c["form"] else None
    for text, used in c["pages"]:
        content = b""
        if text:
            content = b"BT /F1 12 Tf (%s) Tj ET" % text.encode("ascii")
        x = b" ".join(b"/Im%d %d 0 R" % (k, images[k]) for k in used)
        if form:
            fm = b" /Fm0 %d 0 R" % form
            x = fm + b" " + x if len(text or "") % 2 else x + fm
        res = b"<< /XObject << " + x + b" >> >>" if x or c["empty_x"] else b"<< >>"
        if c["indirect"]:
            res = b"%d 0 R" % add(res)
        s = add(b"<< /Length %d >>\nstream\n" % len(content) + content + b"\nendstream")
        kids.append(add(b"<< /Type /Page /Parent 2 0 R /MediaBox [0 0 200 200]%s /Contents %d 0 R >>" %
                        (b"" if c["bare"] and not x else b" /Resources " + res, s)))
    objs[1] = b"<< /Type /Pages /Kids [" + b" ".join(b"%d 0 R" % k for k in kids) + b"] /Count %d >>" % len(kids)
    info = None
    if c["info"] is not None:
        info = add(b"<< " + b" ".join(b"/%s (%s)" % (k.capitalize().encode(), v.encode("ascii")) for k, v in sorted(c["info"].items())) + b" >>")
    out = io.BytesIO()
    out.write(b"%PDF-1.4\n")
    offs = []
    for n, o in enumerate(objs):
        offs.append(out.tell())
        out.write(b"%d 0 obj\n" % (n + 1) + o + b"\nendobj\n")
    x = out.tell()
    out.write(b"xref\n0 %d\n0000000000 65535 f \n" % (len(objs) + 1))
    for o in offs:
        out.write(b"%010d 00000 n \n" % o)
    out.write(b"trailer\n<< /Size %d /Root 1 0 R%s >>\nstartxref\n%d\n%%%%EOF\n" %
              (len(objs) + 1, b" /Info %d 0 R" % info if info else b"", x))
    data = out.getvalue()
    if c["encrypted"]:
        w = PyPDF2.PdfFileWriter()
        r = PyPDF2.PdfFileReader(io.BytesIO(data))
        for p in range(r.getNumPages()):
            w.addPage(r.getPage(p))
        w.encrypt("secret")
        out = io.BytesIO()
        w.write(out)
        data = out.getvalue()
    return data


def gen_part(rng):
    name = rng.choice(NAMES) if rng.random() < .75 else None
    p = {"name": name, "style": rng.choice(["quoted", "quoted", "2231", "disp"] if name else ["quoted"]), "deep": rng.choice([0, 0, 0, 1, 2, 3]),
         "qp": rng.random() < .2}
    if rng.random() < .55:
        sub = rng.choice(sorted(TYPES))
        p.update(kind="image", sub=sub, size=[rng.choice([1, 2, 3, 10, 16, 40, 99, 100, 101]), rng.choice([1, 2, 5, 10, 16, 50, 100])],
                 shade=rng.choice([0, 1, 7]), real=rng.random() < .85, case=rng.choice([str.lower, str.lower, str.upper, str.capitalize]).__name__)
        p["fmt"] = sub if rng.random() < .85 else rng.choice(sorted(TYPES))
    else:
        imgs = [[rng.choice([1, 10, 30]), rng.choice([1, 10, 20])] for _ in range(rng.choice([0, 0, 1, 2, 3]))]
        pages = [[rng.choice([None, None] + WORDS), rng.sample(range(len(imgs)), rng.randint(0, len(imgs)))] for _ in range(rng.choice([1, 1, 2, 3]))]
        info = None
        if rng.random() < .8:
            info = {k: rng.choice(WORDS) for k in rng.sample(DETAILS, rng.randint(0, 4))}
        p.update(kind="pdf", images=imgs, pages=pages, info=info, form=rng.random() < .2, empty_x=rng.random() < .3, indirect=rng.random() < .3,
                 bare=rng.random() < .2, encrypted=rng.random() < .12, real=rng.random() < .85)
    return p


def gen_message(rng):
    parts = [gen_part(rng) for _ in range(rng.choice([0, 1, 1, 2, 3, 4]))]
    if parts and rng.random() < .35:
        # the same file once more, perhaps as something else
        q = dict(rng.choice(parts))
        q["name"] = rng.choice([q["name"], rng.choice(NAMES)])
        if q["name"] and q["style"] not in ("2231", "disp"):
            q["style"] = "quoted"
        if q["kind"] == "image" and rng.random() < .5:
            q["sub"] = rng.choice(sorted(TYPES))
        parts.append(q)
    return {"parts": parts, "text": rng.choice(["", "short", "some longer text of the message " * 3])}


def gen(rng, i, tier):
    msgs = [gen_message(rng) for _ in range(rng.choice([1, 1, 2]))]
    pool = [p for m in msgs for p in m["parts"]]
    imgs = [p for p in pool if p["kind"] == "image"]
    pdfs = [p for p in pool if p["kind"] == "pdf"]
    rules = []

    def typ():
        return rng.choice(["all", "all"] + sorted(TYPES) + [p["sub"] for p in imgs])

    def area():
        ks = [p["size"][0] * p["size"][1] for p in imgs] or [100]
        return rng.choice([rng.choice(ks), sum(ks), rng.choice(ks) + 1, 0, 50, 1000, 10 ** 6])
    for _ in range(rng.randint(6, 14)):
        k = rng.choice(["image_count", "image_named", "pixel_coverage", "image_size_exact", "image_size_range", "image_to_text_ratio",
                        "pdf_count", "pdf_image_count", "pdf_pixel_coverage", "pdf_named", "pdf_name_regex", "pdf_match_md5", "pdf_match_fuzzy_md5",
                        "pdf_match_details", "pdf_is_encrypted", "pdf_is_empty_body"])
        if k in ("image_count", "pdf_count", "pdf_image_count"):
            lo = rng.choice([0, 1, 1, 2, 3, 4])
            a = [lo] + ([max(0, lo + rng.choice([0, 0, 1, 2]))] if rng.random() < .6 else [])
            a = [typ()] + a if k == "image_count" else a
        elif k in ("pixel_coverage", "pdf_pixel_coverage"):
            if k == "pdf_pixel_coverage":
                lo = rng.choice([0, 1, 10, 100, 101, 110, 200, 300, 600, 601])
            else:
                lo = area()
            a = [lo] + ([lo + rng.choice([0, 1, 50, 1000, 100000])] if rng.random() < .6 else [])
            a = [typ()] + a if k == "pixel_coverage" else a
        elif k in ("image_named", "pdf_named"):
            a = [rng.choice([x for x in NAMES if x.isprintable() and ord(max(x)) < 128 and ";" not in x] + ["other", "TEST.pdf", "None"])]
        elif k == "pdf_name_regex":
            a = [rng.choice([r"/^test\.pdf$/", r"/^test\.pdf$/i", r"/bill/", r"/\d{4}/", r"/^x/", r"/\.PDF$/i", r"/none/i", r"/^[a-z.-]+$/"])]
        elif k == "image_size_exact":
            w, h = (rng.choice(imgs)["size"] if imgs else [10, 10])
            if rng.random() < .3:
                w += 1
            a = [typ(), h, w]
        elif k == "image_size_range":
            w, h = (rng.choice(imgs)["size"] if imgs else [10, 10])
            a = [typ(), max(0, h + rng.choice([0, 0, -1, 1, -20])), max(0, w + rng.choice([0, 0, -1, 1, -20]))]
            n = rng.choice([0, 1, 2, 2])
            a += [h + rng.choice([0, 0, -1, 1, 30]), w + rng.choice([0, 0, -1, 1, 30])][:n]
        elif k == "image_to_text_ratio":
            a = [typ(), rng.choice(["0.0", "0.001", "0.01", "0.1", "1.0", "50"])]
            if rng.random() < .6:
                a.append(rng.choice(["0.015", "0.2", "1.5", "7.0", "60"]))
        elif k in ("pdf_match_md5", "pdf_match_fuzzy_md5"):
            a = [["pool", rng.randrange(8), rng.random() < .5, rng.random() < .8]]
        elif k == "pdf_match_details":
            a = [rng.choice(DETAILS), rng.choice([r"/^mobile$/", r"/Acme/", r"/acme/i", r"/^x$/", r"/pill|Ann/", r"/\d\.\d/", r"/./"])]
        elif k == "pdf_is_empty_body":
            a = [rng.choice([0, 1, 100, 700, 1000, 1500, 3000, 10 ** 6])]
        else:
            a = []
        rules.append([k, a, rng.random() < .35, rng.choice(["body", "body", "rawbody"])])
    return {"messages": msgs, "rules": rules, "order": rng.random() < .5}


def data_of(p):
    if p["kind"] == "image":
        d = image(TYPES[p["fmt"]], p["size"][0], p["size"][1], p["shade"])
        return d if p["real"] else b"not an image %d" % p["shade"]
    d = pdf(p)
    return d if p["real"] else b"%PDF-1.4 broken" + d[60:90]


def entity(p, data):
    if p["kind"] == "image":
        t = "image/" + p["sub"]
        t = getattr(t, p["case"])()
    else:
        t = "application/pdf"
    h = ["Content-Type: " + t]
    if p["name"]:
        n = p["name"]
        plain = all(ord(c) < 128 for c in n)
        if p["style"] == "disp":
            h.append('Content-Disposition: attachment; filename="%s"' % (n if plain else "f"))
        elif p["style"] == "2231" or not plain:
            h[0] += "; name*=utf-8''" + "".join(c if c.isalnum() and ord(c) < 128 else "".join("%%%02X" % b for b in c.encode("utf-8")) for c in n)
        else:
            h[0] += '; name="%s"' % n
    h.append("Content-Transfer-Encoding: base64")
    body = base64.encodebytes(data).decode("ascii")
    out = "\n".join(h) + "\n\n" + body
    for k in range(p["deep"]):
        if k == 1:
            # inside a forwarded message
            out = "Content-Type: message/rfc822\n\nFrom: in@example.com\nSubject: inner\n" + out
        else:
            b = "in%d" % k
            out = 'Content-Type: multipart/mixed; boundary="%s"\n\n--%s\n%s\n--%s--\n' % (b, b, out, b)
    return out


def raw_message(m, datas):
    out = ["From: a@b.example", "Subject: s", "MIME-Version: 1.0", 'Content-Type: multipart/mixed; boundary="out"', "", "--out",
           "Content-Type: text/plain", "", m["text"]]
    for p, d in zip(m["parts"], datas):
        out += ["--out", entity(p, d).rstrip("\n")]
    return "\n".join(out + ["--out--", ""])


def facts(m, datas):
    """What is known of the message."""
    f = {"images": [], "names": [], "pdfs": [], "pdf_names": []}
    for p, d in zip(m["parts"], datas):
        name = p["name"] if p["name"] and p["style"] != "disp" else None
        if p["kind"] == "image":
            f["images"].append((p["sub"], tuple(p["size"]) if p["real"] else None))
            f["names"].append(name)
        else:
            f["pdfs"].append((p, d))
            f["pdf_names"].append(name)
    return f


def between(x, a):
    return a[0] <= x and (len(a) < 2 or x <= a[1])


def expected(k, a, f, text_len):
    if k.startswith("image") or k == "pixel_coverage":
        mine = [s for t, s in f["images"] if a[0] in ("all", t)]
        sizes = [s for s in mine if s]
        cov = sum(w * h for w, h in sizes)
        if k == "image_count":
            return between(len(mine), a[1:])
        if k == "image_named":
            return a[0] in f["names"]
        if k == "pixel_coverage":
            return between(cov, a[1:])
        if k == "image_size_exact":
            return (a[2], a[1]) in sizes
        if k == "image_size_range":
            return any(w >= a[2] and h >= a[1] and (len(a) < 4 or h <= a[3]) and (len(a) < 5 or w <= a[4]) for w, h in sizes)
        ratio = text_len / float(cov) if cov else text_len
        return between(ratio, [float(x) for x in a[1:]])
    pdfs = f["pdfs"]
    open_ = [p for p, _ in pdfs if p["real"] and not p["encrypted"]]
    if k == "pdf_count":
        return between(len(pdfs), a)
    images = [tuple(p["images"][n]) for p in open_ for _, used in p["pages"] for n in used]
    if k == "pdf_image_count":
        return between(len(images), a)
    if k == "pdf_pixel_coverage":
        return between(sum(w * h for w, h in images), a)
    if k == "pdf_named":
        return a[0] in f["pdf_names"]
    if k == "pdf_name_regex":
        body, flags = a[0][1:].rsplit("/", 1)
        return any(n and re.search(body, n, re.I if flags else 0) for n in f["pdf_names"])
    if k == "pdf_match_md5":
        return a[0].lower() in [hashlib.md5(d).hexdigest() for _, d in pdfs]
    if k == "pdf_match_fuzzy_md5":
        return a[0].lower() in [hashlib.md5(t.encode()).hexdigest() for p in open_ for t, _ in p["pages"] if t]
    if k == "pdf_match_details":
        body, flags = a[1][1:].rsplit("/", 1)
        return any(re.search(body, p["info"][a[0]], re.I if flags else 0) for p in open_ if p["info"] and a[0] in p["info"])
    if k == "pdf_is_encrypted":
        return any(p["encrypted"] and p["real"] for p, _ in pdfs)
    if k == "pdf_is_empty_body":
        n = sum(len(d) for _, d in pdfs)
        return None if n == a[0] else bool(pdfs) and n < a[0]
    raise ValueError(k)


def run(case, obs):
    msgs = [(m, [data_of(p) for p in m["parts"]]) for m in case["messages"]]
    sums, texts = [], []
    for m, ds in msgs:
        for p, d in zip(m["parts"], ds):
            if p["kind"] == "pdf":
                sums.append(hashlib.md5(d).hexdigest())
                texts += [hashlib.md5(t.encode()).hexdigest() for t, _ in p["pages"] if t]
    cf = ["loadplugin oa.plugins.image_info.ImageInfoPlugin", "loadplugin oa.plugins.pdf_info.PDFInfoPlugin"]
    rules = []
    for n, (k, a, quoted, kind) in enumerate(case["rules"]):
        if k in ("pdf_match_md5", "pdf_match_fuzzy_md5"):
            _, j, upper, there = a[0]
            pool = sums if k == "pdf_match_md5" else texts
            v = pool[j % len(pool)] if pool and there else hashlib.md5(b"%d" % j).hexdigest()
            a = [v.upper() if upper else v]
        args = ", ".join('"%s"' % x if isinstance(x, str) and not re.match(r"[\d.]+\Z", x) or quoted and k[0] != "p" else str(x) for x in a)
        rules.append((n, k, a, kind))
        cf.append("%s R%d eval:%s(%s)" % (kind, n, k, args))
    cf = "\n".join(cf) + "\n"
    rs, _ = oah.load(cf)
    for m, ds in msgs:
        raw = raw_message(m, ds)
        msg = oah.scan(rs, raw)
        got = set(oah.hits(msg))
        f = facts(m, ds)
        obs.count("messages")
        for n, k, a, kind in rules:
            want = expected(k, a, f, len(msg.text if kind == "body" else msg.raw_text))
            if want is None:
                continue
            obs.count("%s_%s" % (k, "hits" if want else "misses"))
            obs.expect(("R%d" % n in got) == want, k, "%s%s as %s: hit is %s, should be %s; parts %s\n%s\n%s", k, a, kind, "R%d" % n in got, want,
                       [dict((x, y) for x, y in p.items()) for p in m["parts"]], cf, raw[:3000])
        obs.nontrivial(cf, raw)
    obs.sample({"config": cf, "parts": [[p["kind"], p["name"]] for m, _ in msgs for p in m["parts"]]}, 3)


if __name__ == "__main__":
    core.main("C31", gen, run, (2500, 60000),
              "one rule set and one or two messages with images and PDF files per case",
              require=dict([(k + s, 20) for s in ("_hits", "_misses") for k in
                            ("image_count", "image_named", "pixel_coverage", "image_size_exact", "image_size_range", "image_to_text_ratio",
                             "pdf_count", "pdf_image_count", "pdf_pixel_coverage", "pdf_named", "pdf_name_regex", "pdf_match_md5",
                             "pdf_match_fuzzy_md5", "pdf_match_details", "pdf_is_encrypted", "pdf_is_empty_body")]))
