"""The tree classes: every edit and query in every small forest, and long random histories, judged by NodeTreeTrace."""
import itertools
import json
import random

import core

CFG = """CONSTANT Props = {"%s"}
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
"""
MODEL = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS ForestInv TraverseInv QueryInv RefusedInv PromiseInv EmitInv
"""
SETS = {
    "lists": ["Itemize", "Item", "Paragraph", "Text"],
    "proofs": ["Proof", "Step", "Step", "Text"],
    "free": ["Section", "Subsection", "Paragraph", "Span"],
    "texts": ["Paragraph", "Text", "Text", "Error"],
    "wide": ["Paragraph", "Span", "Text", "Text", "Text"],
    "steps": ["Proof", "Step", "Step", "Step", "Subproof"],
    "items": ["Itemize", "Enumerate", "Item", "Item", "Caption"],
}
LEAF = {"Text", "Error", "Reference", "Cite", "Appendix", "Author", "Bibitem", "PendingReference", "URL"}
CLASSES = ["Manuscript", "Section", "Subsection", "Paragraph", "Span", "Text", "Text", "Itemize", "Enumerate", "Item",
           "Item", "Proof", "Step", "Step", "Step", "Subproof", "Theorem", "Lemma", "Figure", "Caption", "Table", "Error",
           "Contents", "Note", "Statement", "Math", "MathBlock", "Reference", "Cite", "Appendix", "Author", "Bibitem"]
ASK = ["Text", "Paragraph", "Step", "Span", "Section", "Item", "Itemize", "Theorem", "Error", "Heading", "Node",
       "NodeWithChildren", "BaseParagraph"]


class World:
    """some real nodes, numbered from 1"""

    def __init__(self, classes):
        from rsm import nodes
        self.mod, self.cls = nodes, classes
        self.nodes = [getattr(nodes, c)() for c in classes]
        for i, n in enumerate(self.nodes):
            n.nodeid = i + 1
        self.of = {id(n): i + 1 for i, n in enumerate(self.nodes)}

    def num(self, n):
        return 0 if n is None else self.of.get(id(n), -1)

    def state(self):
        return ([self.num(n.parent) for n in self.nodes], [[self.num(c) for c in n.children] for n in self.nodes])

    def build(self, kids):
        """through plain appends"""
        def go(n):
            for c in kids[n - 1]:
                self.nodes[n - 1].append(self.nodes[c - 1])
                go(c)
        below = {c for k in kids for c in k}
        for n in range(1, len(kids) + 1):
            if n not in below:
                go(n)
        return self

    def edit(self, e):
        x = self.nodes[e["n"] - 1]
        ms = [self.nodes[m - 1] for m in e["ms"]]
        op, ok = e["op"], True
        try:
            if op == "append":
                x.append(ms[0])
            elif op == "appendall":
                x.append(iter(ms) if e.get("it") else ms)
            elif op == "prepend":
                x.prepend(ms[0])
            elif op == "prependall":
                x.prepend(ms)
            elif op == "remove":
                x.remove(ms[0])
            elif op == "removeself":
                x.remove_self()
            elif op == "clear":
                x.clear()
            elif op == "replace":
                x.replace_self(ms[0])
            elif op == "replaceall":
                x.replace_self(iter(ms) if e.get("it") else ms)
        except Exception:  # noqa: BLE001  the edit is refused
            ok = False
        p, k = self.state()
        return dict(op=op, n=e["n"], ms=e["ms"], ok=ok, par=p, kids=k)

    def ask(self, q):
        x, nm = self.nodes[q["n"] - 1], self.mod
        cs = [None if c == "" else getattr(nm, c) for c in q["c"]]
        k = q["q"]
        try:
            if k == "traverse":
                a = [self.num(y) for y in (x.traverse() if cs[0] is None else x.traverse(nodeclass=cs[0]))]
            elif k == "cond":
                a = [self.num(y) for y in x.traverse(condition=lambda y: self.num(y) % 2 == q["i"])]
            elif k in ("first", "last"):
                f = x.first_of_type if k == "first" else x.last_of_type
                arg = cs[0] if len(cs) == 1 else tuple(cs)
                m, i = f(arg, return_idx=True)
                a = [self.num(m), 0 if i is None else i + 1]
                if f(arg) is not m:
                    a = [-2]
            elif k in ("prev", "next"):
                f = x.prev_sibling if k == "prev" else x.next_sibling
                a = [self.num(f(cs[0]))]
                if q["c"][0] == self.cls[q["n"] - 1] and self.num(f("self")) != a[0]:
                    a = [-2]
            elif k == "anc":
                a = [self.num(x.first_ancestor_of_type(cs[0] if len(cs) == 1 else tuple(cs)))]
            elif k == "byid":
                a = [self.num(x.get_child_by_id(q["i"]))]
        except Exception as ex:  # noqa: BLE001
            a = [-3]
            q = dict(q, exc=repr(ex)[:80])
        return dict(q, a=a)


def edits(classes):
    """as Edits in NodeTree"""
    N = range(1, len(classes) + 1)
    inner = [n for n in N if classes[n - 1] not in LEAF]
    lists = [[]] + [[a] for a in N] + [[a, b] for a in N for b in N]
    for n in inner:
        for m in N:
            for op in ("append", "prepend", "remove"):
                yield dict(op=op, n=n, ms=[m])
        for ms in lists:
            for op in ("appendall", "prependall"):
                yield dict(op=op, n=n, ms=ms)
        yield dict(op="clear", n=n, ms=[])
    for n in N:
        yield dict(op="removeself", n=n, ms=[])
        for m in N:
            yield dict(op="replace", n=n, ms=[m])
        for ms in lists:
            yield dict(op="replaceall", n=n, ms=ms)


def queries(classes):
    N = range(1, len(classes) + 1)
    kinds = sorted(set(classes))
    for n in N:
        for c in ["", "Node", "Heading", "NodeWithChildren", *kinds]:
            yield dict(q="traverse", n=n, c=[c], i=0)
            yield dict(q="prev", n=n, c=[c], i=0)
            yield dict(q="next", n=n, c=[c], i=0)
            if c:
                yield dict(q="first", n=n, c=[c], i=0)
                yield dict(q="last", n=n, c=[c], i=0)
                yield dict(q="anc", n=n, c=[c], i=0)
        for a, b in itertools.combinations(kinds, 2):
            for q in ("first", "last", "anc"):
                yield dict(q=q, n=n, c=[a, b], i=0)
        for i in N:
            yield dict(q="byid", n=n, c=[""], i=i)
        for i in (0, 1):
            yield dict(q="cond", n=n, c=[""], i=i)


def small(arg):
    name, kids, want = arg
    classes = SETS[name]
    w = World(classes).build(kids)
    p, k = w.state()
    asks = [w.ask(q) for q in queries(classes)] if "C02" in want else []
    p2, k2 = w.state()
    alts = [World(classes).build(kids).edit(e) for e in edits(classes)] if "C01" in want else []
    return dict(id=f"{name}-{kids}", cls=classes, par=p, kids=k, steps=[], alts=alts, asks=asks, par2=p2, kids2=k2)


def history(arg):
    seed, n, length, want = arg
    r = random.Random(seed)
    classes = [r.choice(CLASSES) for _ in range(n)]
    if r.random() < .5:            # few kinds, so that many edits are accepted
        few = r.sample(["Paragraph", "Span", "Text", "Section", "Step", "Proof", "Itemize", "Item", "Error", "Lemma"], 4)
        classes = [r.choice(few) for _ in range(n)]
    if all(c in LEAF for c in classes):
        classes[0] = "Paragraph"
    w = World(classes)
    p, k = w.state()
    steps = []
    inner = [i + 1 for i, c in enumerate(classes) if c not in LEAF]
    for _ in range(length):
        par, kids = w.state()
        free = [i + 1 for i in range(n) if par[i] == 0]
        held = [i + 1 for i in range(n) if par[i] != 0]
        some = lambda: r.choice(free if free and r.random() < .75 else range(1, n + 1))  # noqa: E731
        op = r.choice(["append"] * 5 + ["appendall"] * 3 + ["prepend"] * 3 + ["prependall"] * 2 +
                      ["remove", "removeself", "clear"] + ["replace"] * 2 + ["replaceall"] * 2)
        e = dict(op=op, n=r.choice(inner), ms=[], it=r.random() < .3)
        if op in ("append", "prepend"):
            e["ms"] = [some()]
        elif op == "remove":
            own = kids[e["n"] - 1]
            e["ms"] = [r.choice(own) if own and r.random() < .7 else r.randint(1, n)]
        elif op == "removeself":
            e["n"] = r.randint(1, n)
        elif op in ("replace", "replaceall"):
            e["n"] = r.choice(held) if held and r.random() < .85 else r.randint(1, n)
            e["ms"] = [some()] if op == "replace" else [some() for _ in range(r.randint(0, 3))]
        elif op in ("appendall", "prependall"):
            e["ms"] = [some() for _ in range(r.randint(0, 3))]
        steps.append(w.edit(e))
        if "C02" in want:
            for _ in range(3):
                k1 = r.choice(["traverse", "first", "last", "prev", "next", "anc", "byid", "cond"])
                cs = [r.choice(ASK + classes)]
                if k1 in ("first", "last", "anc") and r.random() < .3:
                    cs.append(r.choice(ASK + classes))
                if k1 in ("traverse", "prev", "next") and r.random() < .3:
                    cs = [""]
                a = w.ask(dict(q=k1, n=r.randint(1, n), c=cs, i=r.randint(0, 1) if k1 == "cond" else r.randint(1, n)))
                pp, kk = w.state()
                steps.append(dict(a, op="query", ok=True, ms=[], par=pp, kids=kk))
    return dict(id=f"h-{seed}", cls=classes, par=p, kids=k, steps=steps, alts=[], asks=[], par2=p, kids2=k)


def check(ctx):
    want = ctx.prop
    for name in ctx.pick(["lists", "proofs", "free", "texts"], list(SETS)):
        r = ctx.tlc("NodeTreeEdges", MODEL, env=dict(SET=name))
        forests = sorted({x[0] for x in ctx.tlc_prints(r, "FOREST")})
        recs = core.pmap(small, [(name, json.loads(f), want) for f in forests])
        ctx.parts[f"{name}: forests"] = len(forests)
        ctx.parts[f"{name}: edits and queries"] = sum(len(x["alts"]) + len(x["asks"]) for x in recs)
        ctx.validate("NodeTreeTrace", recs, CFG % want, name, lambda x: x, lambda x: dict(classes=x["cls"], kids=x["kids"]))
    n = ctx.pick(400, 6000)
    recs = core.pmap(history, [(f"{ctx.seed}-{i}", 3 + i % 10, 12 + i % 40, want) for i in range(n)])
    ctx.sample(dict(classes=recs[0]["cls"], steps=[[s["op"], s["n"], s["ms"], s["ok"]] for s in recs[0]["steps"]][:8]))
    ctx.parts["edits accepted"] = sum(s["ok"] for x in recs for s in x["steps"] if s["op"] != "query")
    ctx.parts["edits refused"] = sum(not s["ok"] for x in recs for s in x["steps"])
    ctx.validate("NodeTreeTrace", recs, CFG % want, "histories", lambda x: x,
                 lambda x: dict(classes=x["cls"], steps=[[s["op"], s["n"], s["ms"], s["ok"]] for s in x["steps"]]))
