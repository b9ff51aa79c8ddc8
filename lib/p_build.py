"""Builds (C23): carried out by the real program in scratch directories, judged by BuildTrace."""
import contextlib
import io
import json
import os
import re
import shutil
import tempfile

import core
import gen
import pipe
from p_app import digest

CFG = """CONSTANT Props = {"%s"}
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
"""
TITLES = dict(none=[""], plain=["Plain title", "One"],
              odd=["Zwei Wörter (a), 'c' und d", "1 + 1 = 2; isn't it? 100 % sure", "A $x_1$ title", "Path \\1 and \\g<0> here", "The title of head and body"])
PLACES = ("top", "section", "theorem", "step")


def source(req, salt, caption=True):
    t = req["title"]
    out = [":rsm:"] + ([f"# {t}"] if t else []) + [""]
    if req["mention"]:
        out += ['The attribute src="none.png" and href="nowhere.css" of a page.', ""]
    out += ["First words.", ""]
    figs = []
    for i, a in enumerate(req["assets"]):
        f = [":figure:", f"  :path: {a}"] + (["  :scale: 0.5"] if (salt + i) % 3 == 0 else []) + ["", ":caption: Words.", "", "::", ""]
        pl = PLACES[(salt + i) % 4]
        if pl == "section":
            f = ["## A section", ""] + f
        elif pl == "theorem":
            f = [":theorem:", ""] + f + ["::", ""]
        elif pl == "step":
            f = [":proof:", "", ":step: Words.", ""] + f + ["::", "", "::", ""]
        figs.append((pl == "section", f))
    for _, f in sorted(figs, key=lambda x: x[0]):
        out += f
    return "\n".join(out + ["::", ""])


def snap():
    res = {}
    for d, _, fs in os.walk("."):
        for f in fs:
            p = os.path.join(d, f)
            res[os.path.relpath(p)] = digest(open(p, "rb").read())
    return sorted([p, h] for p, h in res.items())


def local(ref, base=""):
    """a reference as a path from the top of the directory, or None"""
    if re.match(r"[a-z]+:|//|#", ref):
        return None
    return os.path.normpath(ref[1:] if ref.startswith("/") else os.path.join(base, ref))


def modules(text, base):
    for m in re.finditer(r"""\bimport\b[^;'"`]*?['"]([^'"]+)['"]""", text):
        yield local(m.group(1), base)
    d = re.search(r"""path\s*=\s*['"]([^'"]+)['"]""", text)
    for m in re.finditer(r"import\(\s*`\$\{path\}([^`]+)`", text):
        yield local((d.group(1) if d else "") + m.group(1), base)


def page(html):
    """what a browser would make of the page: its title, its body, images, other files of the directory"""
    head, _, rest = html.partition("<body>")
    body = ("<body>" + rest).split("</body>")[0] + "</body>"
    img = [m.group(2) for m in re.finditer(r"<img\b([^<>]*?)\ssrc=\"([^\"]*)\"", body)]
    needs, todo = set(), []
    for m in re.finditer(r"<(?:link|script)\b[^>]*?\s(?:href|src)=\"([^\"]*)\"", html):
        todo.append(local(m.group(1)))
    for m in re.finditer(r"<script\b[^>]*>(.*?)</script>", head, re.S):
        todo += modules(m.group(1), "")
    while todo:
        p = todo.pop()
        if p is None or p in needs:
            continue
        needs.add(p)
        if p.endswith(".js") and os.path.exists(p):
            todo += modules(open(p, encoding="utf-8").read(), os.path.dirname(p))
    t = re.search(r"<title>(.*?)</title>", head, re.S)
    return dict(body=digest(body.strip()), heading=t.group(1) if t else "(none)", images=[os.path.normpath(i) for i in img], needs=sorted(needs))


def rec(x):
    first, req, src, salt = x
    from rsm import app, tsparser
    st = os.path.join(core.REPO, "rsm", "static")
    shipped = sorted(["static/" + f, digest(open(os.path.join(st, f), "rb").read())] for f in os.listdir(st)
                     if f.endswith((".js", ".css")))
    r = dict(src=src, assets=[os.path.normpath(a) for a in req["assets"]], hr=req["hr"], shipped=shipped, builds=[], title="", rendered="")
    old, d = os.getcwd(), tempfile.mkdtemp(prefix="verif-build-")
    os.chdir(d)
    try:
        with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
            r["title"] = tsparser.TSParser().parse(src).title or ""
            body = app.render(source=src, handrails=req["hr"], add_source=True)
            r["rendered"] = digest(body.strip())
            for k, p in enumerate(first):
                if os.path.dirname(p):
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "wb") as f:
                    f.write(bytes((i * (k + 3) + salt) % 256 for i in range(400 + k)))
            r["first"] = snap()
            for n in range(2):
                try:
                    app.make(source=src, handrails=req["hr"], lint=bool(salt % 2))
                    b = dict(end="ok")
                except Exception as ex:  # noqa: BLE001
                    b = dict(end=type(ex).__name__)
                pg = dict(body="", heading="", images=[], needs=[])
                if b["end"] == "ok" and os.path.exists("index.html"):
                    pg = page(open("index.html", encoding="utf-8").read())
                r["builds"].append(dict(b, after=snap(), **pg))
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)
    return r


def check(ctx):
    cfg = "CONSTANT MaxAssets = %d\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Complete Frame AllOrNothing Printed\nPROPERTY Again\n"
    r = ctx.tlc("BuildRuns", cfg % 2)
    every = [json.loads(x[0]) for x in ctx.tlc_prints(r, "DOC")]
    every.sort(key=lambda d: json.dumps(d, sort_keys=True))
    ctx.parts["builds in the model"] = len(every)
    k = max(1, len(every) // ctx.pick(900, 12000))
    picked = every[ctx.seed % k::k]
    jobs = []
    for i, d in enumerate(picked):
        q = dict(d["req"])
        ts = TITLES[q["title"]]
        q["title"] = ts[(i + ctx.seed) % len(ts)]
        jobs.append((d["first"], q, source(q, i), i))
    # documents of other shapes
    n, i = ctx.pick(100, 1500), 0
    while n:
        i += 1
        s = gen.to_source(gen.Gen(f"build-{ctx.seed}-{i}", blocks=3, rtbraces=0, fig=0, badrefs=0).doc())
        if len(s) > 4000 or ":figure:" in s or not pipe.recognised(s) or pipe.run(s, want=("plain", "hr"))["exc"]:
            continue
        n -= 1
        jobs.append((["notes.txt"] if i % 2 else [], dict(assets=[], hr=bool(i % 3), title="", mention=False), s, i))
    jobs = [j for j in jobs if pipe.recognised(j[2])]
    recs = core.pmap(rec, jobs)
    for i, r in enumerate(recs):
        r["id"] = f"build-{i}"
    ctx.sample(dict(source=recs[0]["src"], files=recs[0]["first"]))
    case = lambda r: dict(source=r["src"], handrails=r["hr"], before=r["first"],
                          builds=[dict(b, after=[p for p in b["after"] if p not in r["shipped"]]) for b in r["builds"]], title=r["title"])
    ctx.validate("BuildTrace", recs, CFG % ctx.prop, "build", lambda r: r, case)
