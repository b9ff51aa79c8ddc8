"""Parser: sources written from abstract documents, their parsed trees judged by ParseTrace."""
import copy
import json

import core
import gen
import p_tform
import pipe
import proj

CFG = p_tform.CFG


# ------------------------------------------------------------- what the specification gets to see
def norm_inls(xs):
    return [norm_inl(x) for x in xs or []]


def norm_inl(x):
    x = dict(x)
    x.setdefault("sep", "")
    if "c" in x:
        x["c"] = norm_inls(x["c"])
    return x


def norm(b):
    b = dict(b)
    k = b["b"]
    if k == "par":
        b["inl"] = norm_inls(b["inl"])
    elif k == "mathpar":
        b["c"] = norm_inl(b["c"])
    elif k == "step":
        b["pars"] = [norm(x) for x in b["pars"]]
        b["subs"] = [norm(x) for x in b["subs"]]
        b["hasp"] = b["p"] is not None
        b["p"] = dict(meta=b["p"]["meta"], c=[norm(x) for x in b["p"]["c"]]) if b["hasp"] else dict(meta=[], c=[])
    elif k == "list":
        b["items"] = [dict(meta=i["meta"], inl=norm_inls(i["inl"])) for i in b["items"]]
    elif k in ("fig", "table"):
        b["cap"], b["capm"] = norm_inls(b["cap"]), b.get("capm", [])
        for r in ("head", "body"):
            if r in b:
                b[r] = [dict(cells=[norm_inls(c) for c in x["cells"]], cm=x["cm"]) for x in b[r]]
    for key in ("blocks", "secs", "items"):
        if key in b and k != "list":
            b[key] = [norm(x) for x in b[key]]
    return b


def norm_doc(d):
    return dict(title=d["title"], meta=d["meta"], front=[norm(b) for b in d["front"]],
                blocks=[norm(b) for b in d["blocks"]], secs=[norm(b) for b in d["secs"]],
                hasbib=d["bib"] is not None, bib=d["bib"] or [])


def parse(src):
    from rsm import tsparser
    rec = dict(src=src, exc="", pre=[], errs=0)
    with pipe.Logs() as h:
        t, e = pipe.stage(lambda: tsparser.TSParser().parse(src))
        rec["errs"] = sum(r["no"] >= 30 for r in h.recs)
    if e or t is None:
        rec["exc"] = e or "no tree"
    else:
        rec["pre"] = proj.project(t)
    return rec


def run(src, pages):
    """parse only, or the whole pipeline"""
    if not pages:
        return parse(src)
    r = pipe.run(src)
    r.pop("root", None)
    r["errs"] = len(r["wparse"])
    return r


def rec_doc(x):
    d, style, pages = x
    r = run(gen.to_source(d, style), pages)
    r["doc"] = norm_doc(d)
    return r


KEEP = ("c", "k", "label", "types", "nonum", "rt", "icon", "title", "raw", "lang", "tgt", "ow", "tls", "kind", "flags",
        "claim", "pk", "path", "scale", "au", "kw", "msc", "bib")


def slim(r):
    return dict(id=r["id"], doc=r["doc"], exc=r["exc"] if r.get("at", "parse") == "parse" else "", errs=r.get("errs", 0),
                pre=[{k: n[k] for k in KEEP if k in n} for n in r["pre"]])


def case(r):
    return dict(source=r["src"], exc=r["exc"])


PROFILES = {
    "C17": dict(joins=.5, newlines=.5, lines=.3, icomment=.08, nestspan=.6, emph=2, constructs=1.5, mathblock=.6, notes=.5),
    "C18": dict(escapes=.8, esctitle=.6, code=2, alg=1, icode=2, math=2, mathblock=2, unnested_math=.6),
    "C19": dict(comments=.6, constructs=1.5, qed=.2, prev=2, depth=3),
    "C20": dict(labels=.8, types=.6, nonum=.5, icon=.6, reftext=.5, title=.9, abstract=.6, author=.8, bib=.7),
}


def docs(ctx, n, pages=0):
    out, i = [], 0
    while len(out) < n:
        i += 1
        size = dict(blocks=2, inls=3) if i % 5 else dict(blocks=4, inls=5)
        g = gen.Gen(f"parse-{ctx.seed}-{ctx.prop}-{i}", rtbraces=0, badrefs=.1, **size, **PROFILES[ctx.prop])
        d = g.doc()
        style = None if i % 3 == 0 else f"{ctx.seed}-{i}"
        if len(gen.to_source(d, style)) <= (6000 if i % 10 == 0 else 2200):
            out.append((d, style, ctx.prop != "C19" and len(out) < pages))
    return out


def judge(ctx, recs, part, chunk=400):
    for k in range(0, len(recs), chunk):
        ctx.validate("ParseTrace", recs[k:k + chunk], CFG % ctx.prop, part, slim, case)


# ------------------------------------------------------------- enumerated sources
INV = "WordsKept LayoutFree NodesRight MetaRight EscapesRight VerbatimRight Printed"


def enum(ctx, family, n):
    cfg = (f'CONSTANT Family = "{family}"\nCONSTANT MaxLen = {n}\nSPECIFICATION Spec\n'
           f"CHECK_DEADLOCK FALSE\nINVARIANTS {INV}\n")
    r = ctx.tlc("Sources", cfg)
    return [json.loads(d) for d in sorted({x[0] for x in ctx.tlc_prints(r, "DOC")})]


def denorm(b):
    """a document printed by the specification, for gen.to_source"""
    if isinstance(b, list):
        return [denorm(x) for x in b]
    if not isinstance(b, dict):
        return b
    b = {k: denorm(v) for k, v in b.items()}
    if b.get("b") == "step" and not b["hasp"]:
        b["p"] = None
    return b


def rec_enum(x):
    d, pages = x
    x = denorm(d)
    if not d["hasbib"]:
        x["bib"] = None
    r = run(gen.to_source(x), pages)
    r["doc"] = d
    return r


# ------------------------------------------------------------- sources with errors
def mutate(s, r):
    """a source as it is while somebody is typing"""
    frag = [":", "::", "$", "*", "/", "`", "{", "}", "\\", "#", "%", "\n", "\n\n", ":foo:", ":span:", ":ref:", ":cite:", "$$",
            "\n::\n", ":theorem:", ":math:", ":label: x", "## ", "\n:section:\n", "{:label: z}", "@article"]
    for _ in range(r.randint(1, 3)):
        p = r.randrange(6, max(7, len(s) - 4))
        k = r.choice(["del", "dup", "ins", "ins", "line", "swap", "cut"])
        if k == "del":
            s = s[:p] + s[p + r.randint(1, 4):]
        elif k == "cut":
            q = s.find(":", p)
            s = s[:q] + s[q + 1:] if q > 0 else s
        elif k == "dup":
            s = s[:p] + s[p:p + 5] + s[p:]
        elif k == "ins":
            s = s[:p] + r.choice(frag) + s[p:]
        else:
            ls = s.split("\n")
            if len(ls) > 4:
                j, m = r.randrange(1, len(ls) - 1), r.randrange(1, len(ls) - 1)
                if k == "line":
                    del ls[j]
                else:
                    ls[j], ls[m] = ls[m], ls[j]
            s = "\n".join(ls)
    return s


def rec_bad(src):
    """the tree that the grammar makes, and what the parser makes of it"""
    from rsm import tsparser
    rec = parse(src)
    with pipe.Logs() as h:
        pipe.stage(lambda: tsparser.TSParser().parse(src))
        rec["nwarn"] = sum(r["no"] >= 30 for r in h.recs)
        rec["warn"] = [list(r["pos"]) for r in h.recs if r["no"] >= 30 and r["pos"]]
    cst = tsparser.TSParser().parse(src, abstractify=False)
    out, stack = [], [(cst.root_node, "", None)]
    while stack:
        n, f, parent = stack.pop()
        i = len(out)
        if parent is not None:
            parent.append(i + 1)
        d = dict(t=n.type, k=[], f=f, s=n.text.decode("utf-8") if n.type in ("text", "asis_text") else "",
                 pos=[*n.start_point, *n.end_point])
        out.append(d)
        kids = [(c, n.field_name_for_child(j) or "", d["k"]) for j, c in enumerate(n.children) if c.is_named]
        stack += reversed(kids)
    rec["cst"] = out
    return rec


def slim_bad(r):
    return dict(id=r["id"], exc=r["exc"], cst=r["cst"], warn=r["warn"], nwarn=r["nwarn"],
                pre=[{k: n[k] for k in ("c", "k", "raw")} for n in r["pre"]])


def bad_sources(ctx, n):
    import random
    out, i = [], 0
    while len(out) < n:
        i += 1
        g = gen.Gen(f"bad-{ctx.seed}-{i}", rtbraces=0, blocks=2, inls=3)
        s = gen.to_source(g.doc())
        if len(s) < 1500:
            out.append(mutate(s, random.Random(f"{ctx.seed}-{i}")))
    return out


# ------------------------------------------------------------- the checks
# property -> [(family, things quick, things thorough, how many of them are also rendered: quick, thorough)]
FAMILIES = {
    "C17": [("inline", 2, 3, 500, 8000)],
    "C18": [("chars", 3, 4, 300, 4000), ("verbatim", 3, 4, 500, 6000)],
    "C19": [("blocks", 2, 3, 0, 0), ("inline", 2, 3, 0, 0)],
    "C20": [("meta", 3, 4, 600, 6000)],
}


def check(ctx):
    p = ctx.prop
    for fam, q, t, rq, rt in FAMILIES[p]:
        ds = enum(ctx, fam, ctx.pick(q, t))
        total, lim = len(ds), ctx.pick(7000, 120000)
        if total > lim:
            ds = ds[:: total // lim + 1]
        k = ctx.pick(rq, rt)
        step = max(1, len(ds) // k) if k else 0
        recs = core.pmap(rec_enum, [(d, bool(step) and i % step == 0) for i, d in enumerate(ds)])
        for i, r in enumerate(recs):
            r["id"] = f"{fam}-{i}"
        ctx.sample(dict(family=fam, source=recs[len(recs) // 2]["src"]))
        ctx.parts[f"{fam} enumerated"] = total
        judge(ctx, recs, fam, 8000)
        pages(ctx, recs, fam)
    ds = docs(ctx, ctx.pick(400, 6000), ctx.pick(120, 2000))
    recs = core.pmap(rec_doc, ds)
    for i, r in enumerate(recs):
        r["id"] = f"doc-{i}"
    ctx.sample(dict(source=recs[0]["src"]))
    judge(ctx, recs, "documents", 500)
    pages(ctx, recs, "documents")
    if p == "C19":
        srcs = bad_sources(ctx, ctx.pick(1000, 20000))
        recs = core.pmap(rec_bad, srcs)
        for i, r in enumerate(recs):
            r["id"] = f"bad-{i}"
        ctx.sample(dict(source=srcs[1]))
        for k in range(0, len(recs), 1000):
            ctx.validate("RecoverTrace", recs[k:k + 1000], CFG % p, "sources with errors", slim_bad, case)


def pages(ctx, recs, part):
    """those that were also rendered"""
    some = [r for r in recs if "plain" in r and r["at"] != "parse"]
    p_tform.judge(ctx, some, part, ctx.prop == "C20", True, 400)
