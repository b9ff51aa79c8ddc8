"""Transformer: documents enumerated by TLC and generated ones, recorded and judged by TransformTrace."""
import json

import core
import gen
import pipe

INV = ("TreeOk LabelsUnique RefsResolved CitesAgree PrevRight PrevRefused NumbersConsecutive "
       "NumbersDistinct TocMirrors StepsSplit DepthRight IdsRight NothingLost PagesRight")

CFG = """CONSTANT Props = {"%s"}
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
"""

# property -> [(family, nodes quick, nodes thorough)]
FAMILIES = {
    "C03": [("labels", 5, 6)],
    "C04": [("cites", 5, 6)],
    "C05": [("prevs", 6, 7)],
    "C06": [("numbers", 5, 6), ("steps", 6, 7)],
    "C07": [("appendix", 5, 7)],
    "C08": [("tocs", 5, 7)],
    "C09": [("steps", 6, 8)],
    "C10": [("handrails", 5, 6), ("steps", 5, 7)],
    "C11": [("steps", 5, 6), ("tocs", 5, 6), ("pages", 4, 5)],
    "C12": [("paragraphs", 5, 6), ("pages", 4, 5), ("handrails", 5, 6)],
    "C13": [("pages", 4, 5), ("paragraphs", 5, 6)],
    "C14": [("paragraphs", 5, 7)],
    "C16": [("labels", 4, 5), ("tocs", 5, 6), ("pages", 4, 5)],
    "C27": [("steps", 6, 7), ("handrails", 5, 6), ("pages", 4, 5)],
    "C28": [("tocs", 6, 7)],
    "C29": [("pages", 4, 5)],
}

# what the randomly generated documents of a property are rich in
PROFILES = {
    "C03": dict(duplabels=.3, badrefs=.25, refs=3, labels=.7),
    "C04": dict(cites=4, bib=1, badrefs=.25, duplabels=.1),
    "C05": dict(proof=4, prev=6, steps=4, depth=3, thm=.5, strictprev=1),
    "C06": dict(nonum=.3, thm=3, mathblock=2, fig=1, table=1, alg=.7, refs=2),
    "C07": dict(appendix=1, table=1.5, alg=1, bib=.6, refs=1.5),
    "C08": dict(toc=1, seqtoc=.3, par=1, blocks=2, nonum=.3),
    "C09": dict(proof=5, depth=4, steps=4),
    "C10": dict(thm=4, proof=4, sketch=2, depth=3, lists=1),
    "C11": dict(),
    "C14": dict(mathblock=4, isclaim=.3, par=4, unnested_math=.8, constructs=1),
    "C16": dict(labels=.8, duplabels=.2, cites=2, bib=.8, toc=.6),
    "C27": dict(proof=3, thm=2, steps=3, icon=.5, labels=.5, reftext=.3),
    "C28": dict(toc=1, sections=1),
    "C29": dict(table=1, code=1, alg=.8, abstract=.5, author=.6, notes=.6, drafts=.5),
    "C20": dict(labels=.8, types=.5, nonum=.4, icon=.4, reftext=.3),
}


def build_api(arr):
    """the tree that the specification describes, through the public constructors"""
    from rsm import nodes
    made = []
    for c, p, label, nonum, title, tgt, ow, tls, pk, text in arr:
        cls = getattr(nodes, c)
        kw = {}
        if label:
            kw["label"] = label
        if nonum:
            kw["nonum"] = True
        if title:
            kw["title"] = title
        if c == "PendingReference":
            kw.update(target=tgt, overwrite_reftext=ow)
        elif c == "PendingCite":
            kw.update(targetlabels=list(tls))
        elif c == "PendingPrev":
            kw.update(target=str(pk), overwrite_reftext=ow)
        if text:
            kw["text"] = text
        n = cls(**kw)
        if p:
            made[p - 1].append(n)
        made.append(n)
    return made[0]


def enum_docs(ctx, family, n):
    """the documents TLC enumerates; the invariants of Documents are checked on the way"""
    cfg = (f'CONSTANT Family = "{family}"\nCONSTANT MaxNodes = {n}\nSPECIFICATION Spec\n'
           f"CHECK_DEADLOCK FALSE\nINVARIANTS {INV}\n")
    r = ctx.tlc("Documents", cfg)
    docs = sorted({x[0] for x in ctx.tlc_prints(r, "DOC")})
    return [json.loads(d) for d in docs]


def rec_api(arr):
    r = pipe.run("", build=lambda: build_api(arr))
    r.pop("root", None)
    return r


def rec_src(src):
    r = pipe.run(src)
    r.pop("root", None)
    return r


def slim(r):
    return dict(id=r["id"], pre=r["pre"], post=r["post"], pos=r["pos"], lk=r["lk"], exc=r["exc"], at=r["at"],
                wtf=r["wtf"])


def slim_page(r):
    return dict(id=r["id"], post=r["post"], plain=r["plain"], hr=r["hr"], exc=r["exc"], at=r["at"])


def case(r):
    return dict(source=r.get("src"), tree=r.get("arr"), exc=r["exc"], warnings=r["wtf"])


def gen_sources(ctx, n, prof, tag="", docs=False):
    """source texts: mostly small documents, a few large ones, some with a lot of one thing"""
    out, i = [], 0
    while len(out) < n:
        i += 1
        size = dict(blocks=2, inls=3) if i % 5 else dict(blocks=4, inls=4)
        g = gen.Gen(f"{ctx.seed}-{ctx.prop}-{tag}-{i}", **{**size, **prof})
        d = g.long(gen.LONG[i // 8 % len(gen.LONG)]) if i % 8 == 0 else g.doc()
        s = gen.to_source(d)
        if len(s) <= (6000 if i % 10 == 0 else 1800) and pipe.recognised(s):
            out.append((d, s) if docs else s)
    return out


def judge_written(ctx, recs, part, chunk=400):
    """what the documents say, and what the later stages start from"""
    import p_parse
    for k in range(0, len(recs), chunk):
        ctx.validate("SourceTrace", recs[k:k + chunk], CFG % ctx.prop, part + ", source", p_parse.slim, case)


def judge(ctx, recs, part, transform, translate, chunk):
    """`recs` are recorded runs; both specifications get to see them"""
    cfg = CFG % ctx.prop
    for k in range(0, len(recs), chunk):
        some = recs[k:k + chunk]
        if transform:
            ctx.validate("TransformTrace", some, cfg, part + ", transformer", slim, case)
        if translate:
            # a document that must be refused has no page
            some = [r for r in some if r["at"] not in ("parse", "transform")]
            ctx.validate("TranslateTrace", some, cfg, part + ", translator", slim_page, case)


def check(ctx, transform=True, translate=True, docs=(160, 2500), cap=(1000, 30000)):
    import p_parse
    p = ctx.prop
    for fam, q, t in FAMILIES.get(p, []):
        arrs = enum_docs(ctx, fam, ctx.pick(q, t))
        total = len(arrs)
        lim = ctx.pick(*cap)
        if total > lim:                     # replay a spread-out part
            arrs = [arrs[i * total // lim] for i in range(lim)]
        recs = core.pmap(rec_api, arrs)
        for i, (r, a) in enumerate(zip(recs, arrs)):
            r["id"], r["arr"] = f"{fam}-{i}", a
        ctx.sample(dict(family=fam, tree=arrs[len(arrs) // 2]))
        ctx.parts[f"{fam} enumerated"] = total
        judge(ctx, recs, fam, transform, translate, 6000)
    written = gen_sources(ctx, ctx.pick(*docs), PROFILES.get(p, {}), docs=True)
    srcs = [s for _, s in written]
    recs = core.pmap(rec_src, srcs)
    for i, r in enumerate(recs):
        r["id"] = f"doc-{i}"
        d = json.dumps(written[i][0], ensure_ascii=False).replace("«", "{").replace("»", "}")
        r["doc"] = p_parse.norm_doc(json.loads(d))
    ctx.sample(dict(source=srcs[0]))
    judge(ctx, recs, "documents", transform, translate, 400)
    if p not in ("C11", "C12"):             # these hold for any tree
        judge_written(ctx, recs, "documents")
