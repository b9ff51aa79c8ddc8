"""Several documents in one process (C15): behaviours of Runs carried out by the real program, judged by RunsTrace."""
import contextlib
import hashlib
import io
import json
import os
import re
import subprocess
import sys
import tempfile

import core
import gen
import pipe
import proj

CFG = """CONSTANT Props = {"%s"}
CONSTANT Family = "%s"
CONSTANT MaxLen = %d
SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
INVARIANT Independent
"""


def digest(x):
    return hashlib.sha1(json.dumps(x, sort_keys=True, ensure_ascii=False).encode()).hexdigest()[:12]


# ------------------------------------------------------------- documents
HOPELESS = [":rsm:\n\n:item: x\n\n", "no manuscript at all", ":rsm:\n# T\n\n:theorem:\n\nso {", "::", "% only a comment\n"]
REFUSED = [":rsm:\n\n:proof:\n\n:step:\n  :label: a\n\n:caption: y\n\n::\n\n::\n\n::\n"]


def wrong_place(src):
    """an item where no item is allowed, at the end of the document"""
    i = src.rindex("\n::\n", 0, src.find(":bibtex:") if ":bibtex:" in src else len(src))
    return src[:i] + "\n:item: stray\n\n" + src[i:]


def no_prev(src):
    i = src.rindex("\n::\n", 0, src.find(":bibtex:") if ":bibtex:" in src else len(src))
    return src[:i] + "\n:proof:\n\n:step:\n\nby :prev:\n\n::\n\n::\n\n" + src[i:]


def pool(ctx, n):
    """documents by kind; the labels they use are the same ones"""
    out = {k: {} for k in ("one", "two", "hopeless", "refused", "noprev")}
    i = 0
    prof = dict(rtbraces=0, labels=.8, duplabels=.1, badrefs=.15, refs=2, cites=2, bib=.7, toc=.5, thm=2, proof=2, notes=.5, code=.5, alg=.3,
                types=.5, constructs=1, appendix=.3, abstract=.3, author=.5, fig=.6, drafts=.3)
    while min(len(out[k]) for k in ("one", "two", "noprev", "refused")) < n:
        i += 1
        s = gen.to_source(gen.Gen(f"runs-{ctx.seed}-{i}", blocks=3, **prof).doc())
        if len(s) > 2500 or not pipe.recognised(s):
            continue
        k = ("one", "two", "one", "two", "noprev", "refused")[i % 6]
        if k == "noprev":
            s = no_prev(s)
        if k == "refused":
            s = wrong_place(s)
        if (k in ("noprev", "refused")) and not pipe.recognised(s):
            continue
        out[k][f"{k}{len(out[k])}"] = s
    for j, s in enumerate(REFUSED):
        out["refused"][f"refused-{j}"] = s
    for j, s in enumerate(HOPELESS):
        out["hopeless"][f"hopeless{j}"] = s
    return out


# ------------------------------------------------------------- one process
class Process:
    """carries out steps; what it returns is [digest of the result, digest of what was logged, digest of the tree, failed?]"""

    def __init__(self, texts, shared=False):
        self.texts, self.shared, self.objs, self.trees, self.apps = texts, shared, {}, {}, []

    def obj(self, what, j, make):
        key = (what, 0 if self.shared else j)
        if key not in self.objs:
            self.objs[key] = make()
        return self.objs[key]

    def stage(self, what, j, doc):
        from rsm import transformer, translator, tsparser
        tree = self.trees.get(j)
        with pipe.Logs() as h:
            if what == "parse":
                r, e = pipe.stage(lambda: self.obj(what, j, tsparser.TSParser).parse(self.texts[doc]))
                self.trees[j] = tree = r
                out = ""
            elif what == "transform":
                r, e = pipe.stage(lambda: self.obj(what, j, transformer.Transformer).transform(tree))
                out = ""
            elif what == "plain":
                out, e = pipe.stage(lambda: self.obj(what, j, translator.Translator).translate(tree))
            else:
                out, e = pipe.stage(lambda: self.obj(what, j, lambda: translator.HandrailsTranslator(add_source=False)).translate(tree))
            log = [(r["lvl"], r["msg"], r["pos"]) for r in h.recs]
        return [digest([out, e]), digest(log), digest(proj.project(tree)) if tree is not None else "", bool(e)]

    def call(self, api, doc, again):
        from rsm import app
        src = self.texts[doc]
        out, err, kw = io.StringIO(), io.StringIO(), dict(log_time=False)
        old = os.getcwd()
        with tempfile.TemporaryDirectory() as d, contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            os.chdir(d)
            try:
                for p in re.findall(r":path: (\S+)", src):
                    os.makedirs(os.path.dirname(p) or ".", exist_ok=True)
                    with open(p, "w") as f:
                        f.write("image " + p)

                def go():
                    if again:
                        a = self.apps[again - 1]
                    else:
                        a = {"plain": lambda: app.ProcessorApp(plain=src, **kw),
                             "handrails": lambda: app.ProcessorApp(plain=src, handrails=True, **kw),
                             "lint": lambda: app.LinterApp(plain=src, **kw),
                             "make": lambda: app.FullBuildApp(plain=src, run_linter=True, **kw)}[api]()
                    self.apps.append(a)
                    r = a.run()
                    return proj.project(r) if hasattr(r, "traverse") else r
                n = len(self.apps)
                r, e = pipe.stage(go)
                if len(self.apps) == n:
                    self.apps.append(None)
                files = {}
                for base, _, fs in os.walk("."):
                    for f in fs:
                        with open(os.path.join(base, f), "rb") as fh:
                            files[os.path.join(base, f)] = hashlib.sha1(fh.read()).hexdigest()
            finally:
                os.chdir(old)
        return [digest([r, e, files, out.getvalue()]), digest(err.getvalue() if not again else ""), "", bool(e)]


def alone(x):
    """what a document yields in a process of its own (this is called in a process that has done nothing else)"""
    doc, text, what = x
    p = Process({doc: text})
    if what in ("stages plain", "stages handrails"):
        r = {}
        for w in ("parse", "transform", what.split()[1]):
            r[f"{w}/{doc}"] = v = p.stage(w, 1, doc)
            if v[3]:
                break
        return r
    return {f"{what}/{doc}": p.call(what, doc, 0)}


def behave(x):
    texts, fam, b, docs = x
    p = Process(texts, b["shared"])
    res = []
    for what, who, with_ in b["hist"]:
        d = docs[who - 1] if fam == "stages" else docs[who]
        res.append(p.stage(what, who, d) if fam == "stages" else p.call(what, d, with_))
    return res


def worker():
    """python p_runs.py alone|behave INPUT OUTPUT"""
    import multiprocessing as mp
    fn = dict(alone=alone, behave=behave)[sys.argv[1]]
    items = json.load(open(sys.argv[2]))
    with mp.get_context("fork").Pool(8, maxtasksperchild=1 if fn is alone else None) as p:
        out = p.map(fn, items, chunksize=1 if fn is alone else 8)
    json.dump(out, open(sys.argv[3], "w"))


def inproc(ctx, fn, items, hashseed):
    a, b = ctx.path("in.json"), ctx.path("out.json")
    json.dump(items, open(a, "w"))
    e = dict(os.environ, PYTHONHASHSEED=str(hashseed), PYTHONWARNINGS="ignore")
    r = subprocess.run([sys.executable, os.path.abspath(__file__), fn, a, b], env=e, stderr=subprocess.PIPE)
    if r.returncode:
        raise core.Broken(r.stderr.decode()[-2000:])
    return json.load(open(b))


def check(ctx):
    docs = pool(ctx, ctx.pick(8, 40))
    texts = {d: s for k in docs for d, s in docs[k].items()}
    for fam, q, t, cap in (("stages", 2, 3, ctx.pick(1500, 20000)), ("apps", 3, 3, ctx.pick(900, 15000))):
        n = ctx.pick(q, t)
        cfg = (f'CONSTANT Family = "{fam}"\nCONSTANT MaxLen = {n}\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n'
               "INVARIANTS Independent Ordered Printed\n")
        bs = [json.loads(x[0]) for x in ctx.tlc_prints(ctx.tlc("Runs", cfg), "DOC")]
        bs.sort(key=lambda b: json.dumps(b))
        ctx.parts[f"{fam}: behaviours enumerated"] = len(bs)
        if len(bs) > cap:
            bs = bs[:: len(bs) // cap + 1]
        whats = ("stages plain", "stages handrails") if fam == "stages" else ("plain", "handrails", "lint", "make")
        ref = {}
        for r in inproc(ctx, "alone", [(d, s, w) for d, s in texts.items() for w in whats], 1000 + ctx.seed):
            for k, v in r.items():
                ref[k] = dict(obs=v[0], log=v[1], tree=v[2])
        items, k = [], 0
        for b in bs:
            def draw(kind):
                nonlocal k
                k += 1
                names = sorted(docs[kind])
                return names[k * 7 % len(names)] if len(names) % 7 else names[k % len(names)]
            if fam == "stages":
                ds = [draw(b["kind"][0]), draw(b["kind"][1])]
            else:
                ds = {kd: draw(kd) for kd in docs}
            items.append(({d: texts[d] for d in (ds if fam == "stages" else ds.values())}, fam, b, ds))
        recs = []
        for i, (x, obs) in enumerate(zip(items, inproc(ctx, "behave", items, 2000 + ctx.seed))):
            b, ds = x[2], x[3]
            used = {f"{w}/{ds[who - 1] if fam == 'stages' else ds[who]}" for w, who, _ in b["hist"]}
            logs = [ref.get(f"{w}/{ds[who - 1] if fam == 'stages' else ds[who]}", {}).get("log", "") if again else o[1]
                    for (w, who, again), o in zip(b["hist"], obs)]
            recs.append(dict(id=f"{fam}-{i}", kind=b["kind"], shared=b["shared"], hist=b["hist"], docs=ds,
                             obs=[o[0] for o in obs], log=logs, tree=[o[2] for o in obs], failed=[o[3] for o in obs],
                             ref={u: ref[u] for u in used if u in ref}, texts=x[0]))
        ctx.sample(dict(family=fam, history=recs[len(recs) // 2]["hist"], documents=recs[len(recs) // 2]["texts"]))
        ctx.validate("RunsTrace", recs, CFG % (ctx.prop, fam, n), fam,
                     lambda r: {k: v for k, v in r.items() if k != "texts"},
                     lambda r: dict(history=r["hist"], shared=r["shared"], documents=r["docs"], texts=r["texts"]))


if __name__ == "__main__":
    worker()
