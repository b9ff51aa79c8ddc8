"""Pages and their scripts (C25, C26, C30...): driven in a small browser model (lib/js), judged by HandrailsTrace."""
import json
import os
import random
import subprocess
import threading
import time
from concurrent.futures import ThreadPoolExecutor

import core
import gen
import pipe

JS = os.path.join(core.ROOT, "lib", "js")
STATIC = os.path.join(core.REPO, "rsm", "static")


def scripts(ctx):
    """the scripts of the page where they can be imported"""
    d = ctx.path("scripts")
    if not os.path.exists(d):
        os.makedirs(d)
        os.makedirs(ctx.path("pages"))
        for f in os.listdir(STATIC):
            if f.endswith(".js") and not f.startswith(("jquery", "tooltipster")):
                t = open(os.path.join(STATIC, f), encoding="utf-8").read()
                for q in "'\"`":
                    t = t.replace(q + "/static/", q + "./")
                with open(os.path.join(d, f), "w", encoding="utf-8") as fh:
                    fh.write(t)
        with open(os.path.join(d, "package.json"), "w") as fh:
            fh.write('{"type": "module"}')
        with open(os.path.join(ctx.path("pages"), "package.json"), "w") as fh:
            fh.write('{"type": "module"}')
    return d


STUCK = 150      # seconds without any result


class Stuck(Exception):
    """the scripts did not come to an end"""


def ends(check):
    """scripts that never end break any property of the page"""
    def f(ctx):
        try:
            check(ctx)
        except Stuck as e:
            ctx.violation("the scripts come to an end", dict(page=e.args[0].get("html"), actions=e.args[0].get("actions")))
    return f


def drive(ctx, jobs, procs=8):
    """carry out the jobs in node, in a few processes"""
    d = scripts(ctx)
    jobs = list(jobs)
    if not jobs:
        return []
    chunks = [jobs[i::procs] for i in range(procs) if jobs[i::procs]]

    def start(ch):
        return subprocess.Popen(["node", "--preserve-symlinks", "--preserve-symlinks-main", "--max-old-space-size=2500", os.path.join(JS, "page.mjs"), d, ctx.path("pages")],
                                stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, encoding="utf-8")

    def one(ch):
        p = start(ch)
        lines, err = [], []
        ts = [threading.Thread(target=lambda: [lines.append(x) for x in p.stdout], daemon=True),
              threading.Thread(target=lambda: err.append(p.stderr.read()), daemon=True)]
        for t in ts:
            t.start()
        p.stdin.write("\n".join(json.dumps(j, ensure_ascii=False) for j in ch))
        p.stdin.close()
        seen, since = 0, time.time()
        while ts[0].is_alive():
            ts[0].join(2)
            n = len(lines)
            if n > seen:
                seen, since = n, time.time()
            elif ts[0].is_alive() and time.time() - since > STUCK:
                p.kill()
                stuck = ch[len([x for x in lines if x.startswith("{")])]
                raise Stuck(stuck)
        p.wait()
        ts[1].join(5)
        res = [json.loads(x) for x in lines if x.startswith("{")]
        if len(res) != len(ch):
            raise core.Broken("the browser model ended early: " + "".join(err)[-2000:])
        for r in res:
            if "broken" in r:
                raise core.Broken("the browser model failed: " + r["broken"][:2000])
        return res
    with ThreadPoolExecutor(procs) as ex:
        out = [r for rs in ex.map(one, chunks) for r in rs]
    by = {r["id"]: r for r in out}
    return [by[j["id"]] for j in jobs]


# ------------------------------------------------------------------ pages
def doc(*parts, title="T", bib=False):
    out = [":rsm:"] + ([f"# {title}"] if title else []) + [""]
    for p in parts:
        out += [p, ""]
    if bib:
        out += [":bibliography: ::", ""]
    out += ["::", ""]
    if bib:
        out += [":bibtex:", "@article{knuth, author={A. Knuth}, title={On it}, year={2001}, journal={J}, doi={10.1/x}}",
                "@book{zeta, author={B. Zeta}, title={Of it}, year={1999}, publisher={P}}", "::", ""]
    return "\n".join(out)


def step(*sub, text="Words."):
    if not sub:
        return f":step: {text} ::"
    return f":step: {text}\n\n:p:\n\n" + "\n\n".join(sub) + "\n\n::\n\n::"


def proof(*steps):
    return ":proof:\n\n" + "\n\n".join(steps) + "\n\n::"


def theorem(text="Words.", kind="theorem", label=""):
    return f":{kind}:\n" + (f"  :label: {label}\n" if label else "") + f"\n{text}\n\n::"


def small():
    """pages on which everything is explored"""
    A = doc(proof(step(step(), step(step())), step()), title="")
    B = doc("Words.", theorem(label="thm"), proof(step(step(step())), step(step())), title="")
    C = doc("Intro.", "## One\n  :label: one", "A.", "B :ref:one:: b.", "## Two", "C.", title="T")
    D = doc("## One", "A.", "### Sub a", "B.", "### Sub b", "C.", "## Two", "D.", title="")
    E = doc("Words and :cite:knuth,zeta::.", "## One", "$$\n:label: eq\nx\n$$", title="", bib=True)
    F = doc(":abstract:\n  :label: abs\n\nWords.\n\n::", ":toc: ::", "## One\n  :label: one", "A.", title="T")
    G = doc(theorem("Words :ref:lem:: of.", label="thm"), theorem(kind="lemma", label="lem"), ":sketch:\n\nWords.\n\n::", title="")
    H = doc(proof(step(step(), text="Statement with :ref:thm:: of it."), step(text="Alone.")), theorem(label="thm"), title="")
    L = doc("## One", "### Sub", theorem(text="Words :ref:two:: of."), "## Two\n  :label: two", title="")
    M = doc(proof(step("Words only."), step(step()), step()), title="")
    return dict(M=(M, True), L=(L, True), A=(A, True), B=(B, True), C=(C, True), D=(D, True), E=(E, True), F=(F, True), G=(G, True), H=(H, True),
                I=(doc("Words.", title=""), False), J=(C, False), K=(doc("## One", "Words."), False))


def render(x):
    src, hr = x
    from rsm import app
    import contextlib
    import io
    with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
        return app.render(source=src, handrails=hr, add_source=False)


def pages(ctx):
    """(source, handrails, html) of the small pages and of generated ones"""
    key = "_pages"
    if hasattr(ctx, key):
        return ctx._pages
    src = [(k, *v) for k, v in small().items()]
    bad = [k for k, s, _ in src if not pipe.recognised(s)]
    if bad:
        raise core.Broken(f"the pages {bad} are not recognised")
    n, i = ctx.pick(40, 200), 0
    while n:
        i += 1
        s = gen.to_source(gen.Gen(f"page-{ctx.seed}-{i}", blocks=3 + i % 3, rtbraces=0, badrefs=0).doc())
        if len(s) > 3000 or not pipe.recognised(s) or pipe.run(s, want=("hr",))["exc"]:
            continue
        n -= 1
        src.append((f"g{i}", s, bool(i % 8)))
    html = core.pmap(render, [(s, hr) for _, s, hr in src])
    ar = drive(ctx, [dict(id=k, mode="arena", html=h) for (k, _, _), h in zip(src, html)])
    out = []
    for (k, s, hr), h, a in zip(src, html, ar):
        if a["stray"]:
            raise core.Broken(f"page {k}: focusable elements where none are expected")
        out.append(dict(id=k, src=s, hr=hr, html=h, nodes=a["nodes"]))
    ctx._pages = out
    return out


RUNS = """CONSTANTS Mode = "%s"
MaxLen = %d
SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS Sound OneOwner NotItself NothingLost FocusShown FocusKept Marks %s
"""
TRACE = 'CONSTANT Props = {"%s"}\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n'


def failed(r):
    return [] if r["load"] == "ok" else [r["load"]]


def write(ctx, name, ps):
    f = ctx.path(name)
    with open(f, "w") as fh:
        for p in ps:
            fh.write(json.dumps(dict(id=p["id"], nodes=p["nodes"]), ensure_ascii=False) + "\n")
    return f


def graphs(ctx, mode, ids, maxlen):
    """{page: (first state, {state: [(deed, next state)]})} as far as the model goes on these pages"""
    ps = [p for p in pages(ctx) if p["id"] in ids]
    f = write(ctx, f"pages-{mode}-{'-'.join(ids)}.ndjson", ps)
    r = ctx.tlc("HandrailsRuns", RUNS % (mode, maxlen, ("Undoes Around " if mode == "keys" else "") + "PrintState"), env=dict(PAGES=f), workers=1)
    got = {}
    for pi, st, es in ctx.tlc_prints(r, "DOC"):
        g = got.setdefault(ps[pi - 1]["id"], (st, {}))[1]
        g.setdefault(st, [(d, t) for d, t in json.loads(es)])
    return got


def tours(first, g, length, limit, rnd):
    """walks from the first state that together use every edge between known states (or about `limit` steps of them)"""
    todo = {u: [(d, t) for d, t in es if t in g] for u, es in g.items()}
    for u in sorted(todo):
        rnd.shuffle(todo[u])
        todo[u].sort(key=lambda x: x[1] != u)      # what changes something comes first
        still = [x for x in todo[u] if x[1] == u]
        todo[u] = still[:1 + len(still) // 3] * bool(still) + [x for x in todo[u] if x[1] != u]
    left, out, spent = sum(map(len, todo.values())), [], 0

    def way(u):
        """the shortest way to a state with unused edges"""
        prev, queue = {u: None}, [u]
        for v in queue:
            if todo[v]:
                path = []
                while prev[v]:
                    v, d = prev[v]
                    path.append(d)
                return path[::-1]
            for d, t in g[v]:
                if t in g and t not in prev:
                    prev[t] = (v, d)
                    queue.append(t)
        return None
    while left and spent < limit:
        u, walk = first, []
        while left and len(walk) < length:
            p = way(u)
            if p is None:
                break
            for d in p:
                walk.append(d)
                u = dict((json.dumps(x), t) for x, t in g[u])[json.dumps(d)]
            d, t = todo[u].pop()
            left -= 1
            walk.append(d)
            u = t
        if not walk:
            break
        spent += len(walk)
        out.append([a for d in walk for a in d])
    return out, left


def walks(ctx, ids, num, length):
    """random histories of the model"""
    ps = [p for p in pages(ctx) if p["id"] in ids]
    f = write(ctx, "pages-any.ndjson", ps)
    cfg = RUNS.split("VIEW")[0] % ("any", length) + "CHECK_DEADLOCK FALSE\nINVARIANTS Sound FocusShown FocusKept Marks PrintLast\n"
    r = ctx.tlc("HandrailsRuns", cfg, env=dict(PAGES=f), workers=4,
                args=("-simulate", f"num={num}", "-depth", str(length + 2), "-seed", str(ctx.seed + 11)))
    got = {}
    for pi, h in ctx.tlc_prints(r, "DOC"):
        got.setdefault((ps[pi - 1]["id"], h), json.loads(h))
    return sorted(((k[0], v) for k, v in got.items()), key=lambda x: json.dumps(x))


ADDRESSES = ["http://localhost/index.html#old", "https://u.org/a/b.html?x=1&y=%C3%A9", "file:///home/u/index.html", "https://u.org/", "https://u.org/p?q=1#one#two"]


def judge(ctx, part, jobs):
    """carry out histories [(page, actions)] and have them judged"""
    ps = pages(ctx)
    num = {p["id"]: i for i, p in enumerate(ps, 1)}
    by = {p["id"]: p for p in ps}
    f = write(ctx, "pages-all.ndjson", ps)
    where = [dict(address=ADDRESSES[i % len(ADDRESSES)], noclip=i % 7 == 3) for i in range(len(jobs))]
    recs = drive(ctx, [dict(id=f"{part}-{i}", mode="run", html=by[p]["html"], actions=acts, **where[i]) for i, (p, acts) in enumerate(jobs)])
    out = []
    for r, (p, acts), w in zip(recs, jobs, where):
        first = dict(a=[], errors=r["errors"] + failed(r), copied=[], toasts=[], cannot="", **r["first"])
        bad = [s for s in r["steps"] if s["cannot"]]
        if bad:
            raise core.Broken(f"page {p}: {bad[0]['a']} cannot be done: {bad[0]['cannot']}")
        for k, x in enumerate(r["steps"]):
            if x["errors"]:
                ctx.note = (acts[:k + 1], x["errors"])
        out.append(dict(id=r["id"], page=num[p], steps=[first] + r["steps"], name=p, acts=acts, base=w["address"].split("#")[0], clip=not w["noclip"]))
        ctx.parts[f"steps ({part})"] = ctx.parts.get(f"steps ({part})", 0) + len(acts)
    case = lambda r: dict(source=by[r["name"]]["src"], handrails=by[r["name"]]["hr"], address=r["base"], clipboard=r["clip"], actions=r["acts"])
    slim = lambda r: {k: r[k] for k in ("id", "page", "steps", "base", "clip")}
    ctx.validate("HandrailsTrace", out, TRACE % ctx.prop, part, slim, case, env=dict(PAGES=f))
    for v in ctx.viol:
        if "actions" in v["case"] and v["case"].get("detail", "").isdigit():
            v["case"]["actions"] = v["case"]["actions"][:int(v["case"].pop("detail")) - 1]


def edges(ctx, mode, groups, maxlen, limit):
    pages(ctx)
    with ThreadPoolExecutor(8) as ex:
        gs = list(ex.map(lambda ids: graphs(ctx, mode, ids.split(), maxlen), groups))
    jobs = []
    for p, (first, g) in sorted((k, v) for g in gs for k, v in g.items()):
        ts, left = tours(first, g, 100, limit, random.Random(f"{ctx.seed} {p}"))
        ctx.parts[f"states ({mode}) of page {p}"] = len(g)
        if left:
            ctx.parts[f"edges left out ({mode}) of page {p}"] = left
        jobs += [(p, t) for t in ts]
    judge(ctx, mode, jobs)


@ends
def check_c25(ctx):
    edges(ctx, "collapse", ["A", "B", "C G", "D E F", "H M"], ctx.pick(5, 99), ctx.pick(6000, 40000))
    w = walks(ctx, [p["id"] for p in pages(ctx)], ctx.pick(30, 400), 40)
    judge(ctx, "any", w)


@ends
def check_c30(ctx):
    jobs = []
    for p in pages(ctx):
        es = [(i, k) for i, n in enumerate(p["nodes"], 1) if n["hr"] for k, it in enumerate(n["items"], 1) if it["k"] == "link" and not it["dis"]]
        down = lambda e, k: [["click", e], ["key", "."]] + [["key", "ArrowDown"]] * k + [["key", "Enter"], ["key", "."]]
        deeds = [[["dots", e], ["item", e, k], ["leave", e]] for e, k in es]
        deeds += [down(e, k) for e, k in es if p["nodes"][e - 1]["foc"]]
        acts, shown = [], 0
        for n, d in enumerate(deeds):
            if len(acts) > 80:
                jobs.append((p["id"], acts))
                acts, shown = [], 0
            acts, shown = acts + d, shown + 1
            if n % 3 == 2:
                acts.append(["dismiss", 1 + n % shown])
                shown -= 1
            if n % 7 == 6:
                acts.append(["wait"])
                shown = 0
        jobs.append((p["id"], acts))
    judge(ctx, "links", jobs)
    w = walks(ctx, [p["id"] for p in pages(ctx)], ctx.pick(10, 400), 40)
    judge(ctx, "any", w)


@ends
def check_c26(ctx):
    edges(ctx, "keys", ["L", "C E", "D", "F I", "G J K", "H M"], ctx.pick(6, 9), ctx.pick(6000, 40000))
    w = walks(ctx, [p["id"] for p in pages(ctx)], ctx.pick(40, 400), 40)
    judge(ctx, "any", w)


# ------------------------------------------------------------------ tooltips
def labelled(k, l, w):
    """(what stands at the beginning of the manuscript, the source of an element of kind k with label l)"""
    blk = f"  :label: {l}\n"
    inl = f"{{:label: {l}}}"
    if k in ("section", "subsection", "subsubsection"):
        above = {"section": [], "subsection": ["## Outer"], "subsubsection": ["## Outer", "### Inner"]}[k]
        return "\n\n".join(above + ["#" * {"section": 2, "subsection": 3, "subsubsection": 4}[k] + f" Title {w}\n{blk}", f"First {w}.", f"Second {w}."])
    if k in ("span", "note"):
        return f"Before {w} :{k}: {inl} inside {w} :: after."
    if k in ("assume", "claim"):
        return f"Before {w} :{k}: {inl} inside {w} :: after."
    if k == "code":
        return f"Before {w} :code: {inl} inside{w} :: after."
    if k == "math":
        return f"Before {w} :math: {inl} {w} :: after."
    if k in ("step", "laststep"):
        s = f":step:\n{blk}\nStatement {w}.\n\n:p:\n\n:step: Sub {w}. ::\n\n::\n\n::"
        return proof(*([step(text=f"Other {w}."), s] if k == "laststep" else [s, step(text=f"Other {w}.")]))
    if k in ("enumerate", "itemize"):
        return f":{k}:\n{blk}\n:item: One {w}.\n\n:item: Two {w}.\n\n::"
    if k == "item":
        return f":itemize:\n\n:item: One {w}.\n\n:item: {inl} Two {w}.\n\n::"
    if k == "subproof":
        return proof(f":step:\n\nStatement {w}.\n\n:p:\n{blk}\n:step: Sub {w}. ::\n\n::\n\n::")
    if k == "proof":
        return f":proof:\n{blk}\n:step: Sub {w}. ::\n\n::"
    if k == "mathblock":
        return f"Text {w}.\n\n$$\n:label: {l}\n{w} = x\n$$"
    if k == "codeblock":
        return f":codeblock:\n{blk}\n{w} = 1\n::"
    if k == "algorithm":
        return f":algorithm:\n{blk}\n\\begin{{algorithm}}\n{w}\n\\end{{algorithm}}\n::"
    if k == "author":
        return f":author:\n{blk}  :name: A {w}\n  :email: {w}@x.org\n::"
    if k == "paragraph":
        return f":paragraph: {inl} Words {w}."
    if k == "figure":
        return f":figure:\n{blk}\n:caption: Caption {w}.\n\n::"
    if k == "table":
        return f":table:\n{blk}\n:tbody:\n\n:tr: One {w} : Two {w} ::\n\n::\n\n:caption: Caption {w}.\n\n::"
    if k == "cell":
        return f":table:\n\n:tbody:\n\n:tr: :td: {inl} One {w} :: :td: Two {w} :: ::\n\n::\n\n::"
    if k == "caption":
        return f":figure:\n  :path: {w}.png\n\n:caption: {inl} Caption {w}.\n\n::"
    if k == "tablecaption":
        return f":table:\n\n:tbody:\n\n:tr: One {w} : Two {w} ::\n\n::\n\n:caption: {inl} Caption {w}.\n\n::"
    if k == "bibitem":
        return ""
    return f":{k}:\n{blk}\nWords {w}.\n\nMore {w}.\n\n::"


def linking(p, link):
    """the source of something that links, at place p"""
    return {"paragraph": f"See {link} there.", "item": f":itemize:\n\n:item: See {link} there.\n\n::",
            "caption": f":figure:\n\n:caption: See {link} there.\n\n::", "cell": f":table:\n\n:tbody:\n\n:tr: See {link} there : X ::\n\n::\n\n::",
            "theorem": f":theorem:\n\nSee {link} there.\n\n::", "statement": proof(step(step(), text=f"See {link} there.")),
            "note": f"Words :note: See {link} there. ::.", "span": f"Words :span: See {link} there. :: more.",
            "quiet": f":remark:\n  :nonum:\n\n:paragraph: {{:nonum:}} See {link} there.\n\n::"}[p]


def tippages(ctx):
    r = ctx.tlc("TooltipsRuns", f"CONSTANT Pairs = {'FALSE' if ctx.thorough else 'TRUE'}\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Written\n", workers=1)
    links = sorted(map(tuple, ctx.tlc_prints(r, "DOC")))
    random.Random(f"tips-{ctx.seed}").shuffle(links)
    todo, out = [], []
    for n, (k, l, p, _) in enumerate(links):
        bib = k == "bibitem"
        link = ":cite:knuth::" if bib else f":ref:{l}::"
        todo.append((k, l, [x for x in (labelled(k, l, f"w{n}"), linking(p, link)) if x], bib))
    if not ctx.thorough:
        todo = todo[:900]
    ok = core.pmap(pipe.recognised, [doc(*x[2], bib=x[3]) for x in todo])
    todo = [x for x, o in zip(todo, ok) if o]
    ctx.parts["links written"], ctx.parts["links that the grammar refuses"] = len(todo), len(ok) - len(todo)
    kinds = {k for k, *_ in links} - {k for k, *_ in todo}
    if kinds:
        raise core.Broken(f"no links to {kinds} are recognised")
    page = []                       # pages with some links each, to different labels

    def flush():
        if page:
            parts = [s for x in page if x[0] in ("author", "abstract") for s in x[2][:1]]
            parts += [s for x in page for s in (x[2][1:] if x[0] in ("author", "abstract") else x[2])]
            out.append((doc(*parts, bib=any(x[3] for x in page)), len(out) % 3 != 0))
            page.clear()
    rest = todo
    while rest:
        used, one, page, later = set(), set(), [], []
        for x in rest:
            if len(page) < 12 and x[1] not in used and not (x[0] == "abstract" and "abstract" in one):
                page.append(x), used.add(x[1]), one.add(x[0])
            else:
                later.append(x)
        page.sort(key=lambda x: x[0] in ("section", "subsection", "subsubsection"))
        flush()
        rest = later
    return out


@ends
def check_c31(ctx):
    ps, srcs = [], tippages(ctx)
    for (s, hr), h in zip(srcs, core.pmap(render, srcs)):
        ps.append(dict(src=s, hr=hr, html=h))
    ps += [dict(src=p["src"], hr=p["hr"], html=p["html"]) for p in pages(ctx)]
    n = ctx.pick(80, 1500)
    more, i = [], 0
    while len(more) < n:
        i += 1
        s = gen.to_source(gen.Gen(f"tips-{ctx.seed}-{i}", blocks=3 + i % 4, rtbraces=0, badrefs=i % 4 == 0).doc())
        if len(s) < 6000 and pipe.recognised(s) and not pipe.run(s, want=("hr",))["exc"]:
            more.append((s, bool(i % 3)))
    ps += [dict(src=s, hr=hr, html=h) for (s, hr), h in zip(more, core.pmap(render, more))]
    ar = drive(ctx, [dict(id=str(k), mode="arena", html=p["html"]) for k, p in enumerate(ps)])
    rs = drive(ctx, [dict(id=str(k), mode="run", html=p["html"], tips=True) for k, p in enumerate(ps)])
    recs = []
    for p, a, r in zip(ps, ar, rs):
        r["errors"] = r["errors"] + failed(r)
        recs.append(dict(id=r["id"], nodes=a["nodes"], tips=r["tips"], typeset=r["typeset"], errors=r["errors"], logged=r["logged"], p=p))
    ctx.parts["links"] = sum(len(r["tips"]) for r in recs)
    ctx.validate("TooltipsTrace", recs, TRACE % "C31", "tooltips", lambda r: {k: v for k, v in r.items() if k != "p"},
                 lambda r: dict(source=r["p"]["src"], handrails=r["p"]["hr"]))


# ------------------------------------------------------------------ minimaps
def mmpages(ctx):
    toc = ":toc: ::"
    out = [(doc(toc, "## One\n  :label: one", "A.", "### In one\n  :label: thm.a", "B.", "### Too", "C.", "## Two", "D.", "## Three\n  :label: a(b", "E.", title="T"), True),
           (doc("Words.", toc, "## One", "A.", "## Two", "B.", "### Sub", "C.", "#### Subsub", "D.", "#### Subsub", "D.", "### Sub", "E.", title=""), True),
           (doc(toc, "## One", "A.", title="T"), True),
           (doc(toc, "Words.", title="T"), True),
           (doc("## One", "A.", toc, "### Sub\n  :label: s1'", "B.", "## Two", "C.", title="T"), True),
           (doc(":abstract:\n\nWords.\n\n::", toc, "## One\n  :label: x.y", "A.", "## Two\n  :nonum:", "B.", ":appendix:", "## Three", "C.", title="T", bib=True), True),
           (doc("## One", "A.", "## Two", "B.", title="T"), True),
           (doc(toc, "## One", "A.", "### Sub", "C.", title="T"), False)]
    n, i = ctx.pick(12, 80), 0
    while n:
        i += 1
        s = gen.to_source(gen.Gen(f"mm-{ctx.seed}-{i}", blocks=2 + i % 3, rtbraces=0).doc())
        if ":toc:" not in s or "\n#" not in s.replace("\n# ", "\n") or len(s) > 3000 or not pipe.recognised(s) or pipe.run(s, want=("hr",))["exc"]:
            continue
        n -= 1
        out.append((s, bool(i % 8)))
    bad = [s for s, _ in out if not pipe.recognised(s)]
    if bad:
        raise core.Broken("not recognised: " + bad[0])
    html = core.pmap(render, out)
    ar = drive(ctx, [dict(id=str(k), mode="arena", html=h) for k, h in enumerate(html)])
    return [dict(src=s, hr=hr, html=h, nodes=a["nodes"], toc=a["toc"], marks=a["marks"], floating=a["floating"], maps=a["maps"]) for (s, hr), h, a in zip(out, html, ar)]


@ends
def check_c32(ctx):
    ps = mmpages(ctx)
    f = ctx.path("pages-mm.ndjson")
    with open(f, "w") as fh:
        for p in ps:
            fh.write(json.dumps({k: p[k] for k in ("nodes", "toc", "marks", "floating", "maps")}, ensure_ascii=False) + "\n")
    r = ctx.tlc("MinimapRuns", f"CONSTANTS Grain = {ctx.pick(20, 5)}\nMany = {ctx.pick(3, 99)}\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS OneInSight Forward InBounds Printed\n", env=dict(PAGES=f), workers=4)
    acts, heads = {}, {}
    for g, a, h in ctx.tlc_prints(r, "DOC"):
        acts.setdefault(g - 1, set()).add(a)
        heads[g - 1] = json.loads(h)
    jobs = []
    for k, p in enumerate(ps):
        rnd = random.Random(f"mm-{ctx.seed}-{k}")
        todo = [json.loads(a) for a in sorted(acts.get(k, ()))] * ctx.pick(1, 2)
        todo += [["hover", e] for e in p["toc"]] * 3
        todo += [["click", e] for e, n in enumerate(p["nodes"], 1) if n["foc"] and (n["tag"] == "a" or rnd.random() < .2)]
        todo += [["key", x] for x in "jjjjkkhlH" * 3]
        if heads.get(k):
            todo += [["toggle", rnd.choice(heads[k])] for _ in range(8)]
        rnd.shuffle(todo)
        # what is collapsed or hidden cannot be clicked on: a little care
        for i in range(0, len(todo), 60):
            seq, coll = [], None
            for a in todo[i:i + 60]:
                if a[0] == "toggle":
                    if coll is not None:
                        seq.append(["toggle", coll])
                        coll = None
                    else:
                        seq.append(a)
                        coll = a[1]
                elif a[0] in ("click", "hover") and coll is not None:
                    seq.append(["toggle", coll])
                    coll = None
                    seq.append(a)
                else:
                    seq.append(a)
            jobs.append((k, seq))
    recs = drive(ctx, [dict(id=f"mm-{i}", mode="run", html=ps[k]["html"], mm=True, actions=a) for i, (k, a) in enumerate(jobs)])
    out = []
    for r, (k, acts) in zip(recs, jobs):
        r["errors"] = r["errors"] + failed(r)
        bad = [s for s in r["steps"] if s["cannot"]]
        if bad:
            raise core.Broken(f"{bad[0]['a']} cannot be done: {bad[0]['cannot']}")
        keep = ("a", "lit", "float", "coll", "foc", "errors")
        first = dict(r["first"], a=[], errors=r["errors"])
        out.append(dict(id=r["id"], page=k + 1, steps=[{q: s[q] for q in keep} for s in [first] + r["steps"]]))
        ctx.parts["steps"] = ctx.parts.get("steps", 0) + len(acts)
    case = lambda r: dict(source=ps[r["page"] - 1]["src"], handrails=ps[r["page"] - 1]["hr"], actions=[s["a"] for s in r["steps"][1:]])
    ctx.validate("MinimapTrace", out, TRACE % "C32", "minimap", lambda r: r, case, env=dict(PAGES=f))
    for v in ctx.viol:
        if v["case"].get("detail", "").isdigit():
            v["case"]["actions"] = v["case"]["actions"][:int(v["case"].pop("detail")) - 1]


# ------------------------------------------------------------------ loading
def loadpages():
    alg = ":algorithm:\n\n\\begin{algorithm}\n\\STATE x = 1\n\\end{algorithm}\n::"
    full = doc(":toc: ::", "## One\n  :label: one", "A :ref:two:: and $x$.", alg, proof(step(step(), step(step()))), "## Two\n  :label: two", alg, theorem(), alg, title="T")
    return [(full, True), (full, False), (doc("Words."), True), (doc("## One\n  :label: one", "Words :ref:one::.", title=""), True),
            (doc(":toc: ::", "## One", alg, title=""), False)]


@ends
def check_c33(ctx):
    r = ctx.tlc("LoadingRuns", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS AllThatCan OneOrTheOther Others Printed\nPROPERTY Loads\n", workers=1)
    cases = sorted((json.loads(m) for m, in ctx.tlc_prints(r, "DOC")), key=lambda c: json.dumps(c))
    for c in cases:
        for x in ("missing", "hanging", "bad"):
            c[x].sort()
    ps = loadpages()
    bad = [s for s, _ in ps if not pipe.recognised(s)]
    if bad:
        raise core.Broken("not recognised: " + bad[0])
    html = core.pmap(render, ps)
    ar = drive(ctx, [dict(id=str(k), mode="arena", html=h) for k, h in enumerate(html)])
    jobs, meta = [], []
    for k, (a, h) in enumerate(zip(ar, html)):
        N = a["nodes"]
        coll = next((e for e, n in enumerate(N, 1) if n["hr"] and n["coll"]), None)
        toc = a["toc"][0] if a["toc"] and a["marks"] else None
        has = ["icons"] * bool("icon" in h and any(n["hr"] for n in N)) + ["math"]
        has += ["handrails"] * bool(coll) + ["keys"] * any(n["foc"] for n in N) + ["algorithms"] * bool(a["algos"])
        has += ["minimap"] * bool(toc) + ["tooltips"] * any(n["tag"] == "a" and "reference" in n["cls"] for n in N)
        for c in cases:
            if k > 1 and len(c["missing"]) + len(c["hanging"]) + len(c["bad"]) > ctx.pick(2, 9):
                continue
            acts = [["key", "j"]]
            if coll:
                acts.append(["toggle", coll])
            if toc:
                acts.append(["hover", toc])
            jobs.append(dict(id=f"load-{len(jobs)}", mode="run", html=h, tips=True, mm=True, keys=c["keys"], actions=acts, hanging=c["hanging"], badalgos=c["bad"],
                             broken=[m for m in c["missing"] if m.endswith(".js")], offline=[m for m in c["missing"] if not m.endswith(".js")]))
            meta.append((k, c, has, coll, toc, a))
    recs = []
    for r, (k, c, has, coll, toc, a) in zip(drive(ctx, jobs), meta):
        works = set()
        gone = c["missing"] + c["hanging"]
        if r["nicons"] and not r["icons"]:
            works.add("icons")
        if any("mathjax" in x for x in r["externals"]) and "mathjax" not in gone and (r["typeset"] or "tooltips.js" in gone or c["hanging"]):
            works.add("math")
        st = {s["a"][0]: s for s in r["steps"]}
        if coll and coll in st["toggle"]["coll"]:
            works.add("handrails")
        if st["key"]["foc"] > 0:
            works.add("keys")
        if toc and st["hover"]["lit"][0] == 1:
            works.add("minimap")
        if r["tips"] and all(t["n"] == 1 for t in r["tips"]):
            works.add("tooltips")
        recs.append(dict(id=r["id"], page=k, has=has, works=sorted(works), algos=a["algos"], drawn=r["drawn"], load=r["load"], **c,
                         errors=[x for s in [r] + r["steps"] for x in s["errors"]], logged=len(r["logged"])))
    ctx.validate("LoadingTrace", recs, 'CONSTANT Props = {"C33"}\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Judged\n', "loading", lambda r: r,
                 lambda r: dict(source=ps[r["page"]][0], handrails=ps[r["page"]][1], missing=r["missing"], hanging=r["hanging"], bad=r["bad"], keys=r["keys"]))
