"""Linter (C21): sources with known places of their elements, linted by the real program, judged by LinterTrace."""
import contextlib
import io
import re

import core
import gen
import p_parse
import p_tform
import pipe
import proj

CFG = """CONSTANT Props = {"%s"}
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT ReportsRight
"""
LINE = re.compile(r"^src:(-?\d+):(-?\d+): (\w+): ")


def rule(msg):
    m = msg.lower()
    if "title" in m:
        return "title"
    if "label" in m and "section" in m:
        return "section"
    if "mathblock" in m or "equation" in m:
        return "math"
    return "?"


def rec(x):
    """x: document, layout, what stands before the manuscript mark"""
    import logging

    from rsm import app
    d, style, before = x
    src, at = gen.places(d, style)
    src = before + src
    rows = before.count("\n")
    col = len(before) - before.rfind("\n") - 1
    man = [rows + 1, col + 1]
    sh = lambda ps: [[r + rows, c + (col if r == 1 else 0)] for r, c in ps]
    r = dict(src=src, exc="", post=[], secs=sh(at["secs"]), maths=sh(at["maths"]), man=man, stages=[], events=[], reports=[],
             same=True, lines=[])
    base = pipe.run(src, want=("plain",))
    r["post"] = [{k: n[k] for k in ("c", "k", "p", "title", "label")} for n in base["post"]]
    if base["at"] in ("parse", "transform"):
        return None                      # nothing to lint
    err = io.StringIO()
    lg = logging.getLogger("RSM")
    old = (lg.level, lg.handlers[:], lg.propagate)
    try:
        with contextlib.redirect_stderr(err):
            h = pipe.Capture()
            a = app.LinterApp(plain=src, log_format="lint")
            lg.addHandler(h)
            t, e = pipe.stage(a.run)
    finally:
        lg.handlers, lg.propagate = old[1], old[2]
        lg.setLevel(old[0])
    if e or t is None:
        r["exc"] = e or "no tree"
        return r
    words = lambda es: [pipe.WORD.findall(m) for m in es]
    r["stages"] = base["wparse"] + base["wtf"] if True else []
    r["events"] = words([x["msg"] for x in h.recs if x["no"] >= 30])
    r["reports"] = [[rule(x["msg"]), x["row"], x["col"]] for x in h.recs if x["no"] < 30]
    after = proj.project(t, [])
    keys = [k for k in base["post"][0] if k != "o"] if base["post"] else []
    r["same"] = [{k: n.get(k) for k in keys} for n in after] == [{k: n.get(k) for k in keys} for n in base["post"]]
    r["lines"] = [[int(m.group(1)), int(m.group(2)), m.group(3)] if m else [0, 0, "?"]
                  for m in (LINE.match(l) for l in err.getvalue().splitlines())]
    return r


def slim(r):
    return {k: v for k, v in r.items() if k != "src"}


def case(r):
    return dict(source=r["src"], exc=r["exc"], reports=r["reports"], lines=r["lines"], sections=r["secs"], equations=r["maths"])


def rec_enum(x):
    d = p_parse.denorm(x[0])
    if not x[0]["hasbib"]:
        d["bib"] = None
    return rec((d, x[1], x[2]))


BEFORE = ["", "", "\n", "  ", "\n\n   "]


def check(ctx):
    ds = p_parse.enum(ctx, "lint", ctx.pick(3, 4))
    ctx.parts["lint enumerated"] = len(ds)
    lim = ctx.pick(2500, 60000)
    if len(ds) > lim:
        ds = ds[:: len(ds) // lim + 1]
    jobs = [(d, None if i % 3 else f"{ctx.seed}-{i}", BEFORE[i % 5]) for i, d in enumerate(ds)]
    finish(ctx, core.pmap(rec_enum, jobs), "lint")
    out, i = [], 0
    prof = dict(rtbraces=0, labels=.5, duplabels=.2, badrefs=.2, unnested_math=.9, mathblock=3, sections=1, notes=.4, constructs=1)
    while len(out) < ctx.pick(300, 5000):
        i += 1
        g = gen.Gen(f"lint-{ctx.seed}-{i}", **dict(prof, blocks=2 if i % 4 else 4))
        d = g.doc()
        if i % 3 == 0:
            d["title"] = ""
        style = None if i % 2 else f"{ctx.seed}-{i}"
        s = gen.to_source(d, style)
        if len(s) < 3000 and pipe.recognised(s):
            out.append((d, style, BEFORE[i % 5]))
    recs = core.pmap(rec, out)
    ctx.sample(dict(source=next(r["src"] for r in recs if r)))
    finish(ctx, recs, "documents")


def finish(ctx, recs, part):
    recs = [r for r in recs if r]
    for i, r in enumerate(recs):
        r["id"] = f"{part}-{i}"
    for k in range(0, len(recs), 3000):
        ctx.validate("LinterTrace", recs[k:k + 3000], CFG % ctx.prop, part, slim, case)
