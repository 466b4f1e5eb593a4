"""Small documents of every supported format, built from token lists; byte-identical every time."""
import functools
import io
import re
import zipfile


def _rezip(data):
    """The same archive with fixed dates, so that its bytes depend on nothing but its content."""
    src = zipfile.ZipFile(io.BytesIO(data))
    out = io.BytesIO()
    with zipfile.ZipFile(out, "w", zipfile.ZIP_DEFLATED) as z:
        for n in src.namelist():
            b = src.read(n)
            if n.endswith(".xml"):
                b = re.sub(rb"\d{4}-\d\d-\d\dT\d\d:\d\d:\d\dZ", b"2020-01-01T00:00:00Z", b)
            zi = zipfile.ZipInfo(n, (1980, 1, 1, 0, 0, 0))
            zi.compress_type = zipfile.ZIP_DEFLATED
            z.writestr(zi, b)
    return out.getvalue()


def pdf(pages):
    objs = {1: b"<< /Type /Catalog /Pages 2 0 R >>",
            3: b"<< /Type /Font /Subtype /Type1 /BaseFont /Helvetica >>"}
    kids = []
    n = 4
    for lines in pages:
        body = b"BT /F1 12 Tf 72 720 Td 14 TL " + b" T* ".join(
            b"(" + t.encode() + b") Tj" for t in lines) + b" ET"
        objs[n] = (b"<< /Type /Page /Parent 2 0 R /MediaBox [0 0 612 792] /Contents %d 0 R "
                   b"/Resources << /Font << /F1 3 0 R >> >> >>" % (n + 1))
        objs[n + 1] = b"<< /Length %d >>\nstream\n" % len(body) + body + b"\nendstream"
        kids.append(b"%d 0 R" % n)
        n += 2
    objs[2] = b"<< /Type /Pages /Kids [" + b" ".join(kids) + b"] /Count %d >>" % len(kids)
    out = bytearray(b"%PDF-1.4\n")
    off = {}
    for i in sorted(objs):
        off[i] = len(out)
        out += b"%d 0 obj\n" % i + objs[i] + b"\nendobj\n"
    x = len(out)
    out += b"xref\n0 %d\n0000000000 65535 f \n" % n
    for i in range(1, n):
        out += b"%010d 00000 n \n" % off[i]
    out += b"trailer\n<< /Size %d /Root 1 0 R >>\nstartxref\n%d\n%%%%EOF\n" % (n, x)
    return bytes(out)


def docx(paras):
    import docx as D
    d = D.Document()
    for p in paras:
        d.add_paragraph(" ".join(p))
    if len(paras) > 2:
        t = d.add_table(rows=1, cols=2)
        t.rows[0].cells[0].text = "cell"
    o = io.BytesIO()
    d.save(o)
    return _rezip(o.getvalue())


def xlsx(rows):
    import openpyxl
    w = openpyxl.Workbook()
    s = w.active
    for r in rows:
        s.append(list(r))
    if len(rows) > 2:
        w.create_sheet("two").append(["second"])
    o = io.BytesIO()
    w.save(o)
    return _rezip(o.getvalue())


def pptx(slides):
    import pptx as P
    p = P.Presentation()
    for sl in slides:
        s = p.slides.add_slide(p.slide_layouts[1])
        s.shapes.title.text = sl[0]
        s.placeholders[1].text = " ".join(sl[1:]) or "-"
    o = io.BytesIO()
    p.save(o)
    return _rezip(o.getvalue())


def long_token(t):
    t, _, n = t.partition("^")
    return t + " fill" * int(n) if n else t


@functools.lru_cache(maxsize=4000)
def build(kind, spec, mangle=None):
    """spec: a tuple of tuples of tokens (paragraphs, pages, rows, slides); "tok^99" is a token and 99 filler words."""
    spec = tuple(tuple(long_token(t) for t in p) for p in spec)
    if kind in ("txt", "md", "csv", "rst", "log", "TXT"):
        sep = {"csv": ",", "md": " "}.get(kind, " ")
        b = "\n\n".join(sep.join(p) for p in spec).encode("utf-8")
    elif kind == "utf16":
        b = "\n\n".join(" ".join(p) for p in spec).encode("utf-16")
    elif kind in ("pdf", "PDF"):
        b = pdf(spec)
    elif kind == "docx":
        b = docx(spec)
    elif kind == "xlsx":
        b = xlsx(spec)
    elif kind == "pptx":
        b = pptx(spec)
    else:
        b = "\n".join(" ".join(p) for p in spec).encode()
    if mangle == "half":
        b = b[: len(b) // 2]
    elif mangle == "garbage":
        b = b"\x00\xff\xfe garbage " * 3
    elif mangle == "flip":
        m = len(b) // 2
        b = b[:m] + bytes([b[m] ^ 0x55]) + b[m + 1:]
    elif mangle == "empty":
        b = b""
    return b
