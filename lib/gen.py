"""Random abstract documents and their RSM source text.

A document is a plain JSON-able structure (see `Gen.doc`).  `to_source` writes it out as
RSM markup.  The structure is independent of the code under test: it is what "the author
meant".
"""
import random

WORDS = ("lorem ipsum dolor sit amet elit sed do magna aliqua enim minim veniam quis "
         "nostrud ullamco laboris nisi commodo duis aute irure velit esse cillum fugiat").split()
TITLES = ["Alpha", "Beta one", "Gamma", "Delta two", "Epsilon", "Zeta"]
TYPES = ["t1", "t2", "foo", "bar", "wide", "theorem", "step", "level-2", "label"]
REFTEXTS = ["X", "0", "7", "it", "see there", "a b c", "é", "Step 1", "(2)"]
ESC = ":%$`*{}#/"          # what a backslash can escape
ICONS = ["star", "heart", "alert", "question", "success"]
CONSTR = ["let", "assume", "claim", "then", "pick", "st", "write", "define",
          "prove", "suffices", "case", "new", "suppose", "wlog"]
THMS = ["theorem", "lemma", "corollary", "definition", "example", "proposition", "remark", "exercise", "problem",
        "porism"]
BIBKEYS = ["author", "title", "year", "journal", "volume", "publisher", "doi", "number"]

DEFAULT = dict(
    sections=1.0, toc=0.35, appendix=0.25, bib=0.5, thm=1.0, proof=1.0, lists=0.6, fig=0.5,
    table=0.5, code=0.5, alg=0.3, abstract=0.25, author=0.3, sketch=0.3, par=2.0, mathblock=1.0,
    refs=1.0, cites=0.7, prev=0.7, notes=0.3, drafts=0.2, constructs=0.7, emph=1.0, math=1.0,
    badrefs=0.15, duplabels=0.12, icode=0.5, url=0.3, escapes=0.2, labels=0.5, nonum=0.2,
    types=0.25, icon=0.2, reftext=0.1, title=0.7, comments=0.15, depth=3, blocks=6, inls=5,
    steps=3, headings="both", errors=0.0, skiplevels=0.0, joins=0.25, newlines=0.3, textref=0.3,
    strictprev=1, nestspan=0.3, unnested_math=0.15, isclaim=0.1, seqtoc=0.08, special=0.0, lines=0.1, icomment=0.03, qed=0.05, esctitle=0.05, rtbraces=1,
)


class Gen:
    def __init__(self, seed, **prof):
        self.r = random.Random(seed)
        self.p = dict(DEFAULT)
        self.p.update(prof)
        self.nlab = 0
        self.labels = []      # labels handed out so far
        self.future = []      # refs to be patched at the end
        self.bibkeys = []

    # -- small helpers
    def chance(self, q):
        return self.r.random() < q

    def pick(self, xs):
        return self.r.choice(list(xs))

    def w(self, opts):
        ks = [k for k, v in opts if v > 0]
        vs = [v for k, v in opts if v > 0]
        return self.r.choices(ks, vs)[0]

    def newlabel(self, pre):
        if self.labels and self.chance(self.p["duplabels"]):
            return self.pick(self.labels)
        self.nlab += 1
        l = f"{pre}-{self.nlab}"
        self.labels.append(l)
        return l

    def words(self, lo=1, hi=4):
        return " ".join(self.pick(WORDS) for _ in range(self.r.randint(lo, hi)))

    def text(self):
        s = self.words()
        if self.chance(0.35):
            s += self.pick([".", ",", ".", "!", ";", ")"])
        if self.chance(self.p["escapes"]):
            s = s + " " + "\\" + self.pick(ESC) + self.pick(["", " "]) + self.words(1, 1)
        if self.chance(0.1):
            s = self.pick([".", ",", "(", "é "]) + s
        if self.chance(self.p["lines"]):
            s += self.pick(["\n", "\n   ", "  \n "]) + self.words(1, 2)
            if self.chance(.3):
                s += "\n" + self.words(1, 1)
        if self.chance(self.p["escapes"] / 3):
            s = self.pick(["\\" + self.pick(ESC) + s, s + "\\" + self.pick(ESC), s + "\\" + self.pick(ESC) + self.words(1, 1)])
        return s

    def reftext(self):
        return self.pick(REFTEXTS) if self.chance(.5) else self.words(1, 2)

    def title(self):
        t = self.pick(TITLES)
        if self.chance(self.p["esctitle"]):
            t += self.pick([" ", ""]) + "\\" + self.pick(ESC) + self.pick(["", " x"])
        return t

    def mathtext(self):
        return self.pick(["x", "x+y", "f(x)=2", "\\alpha_{1}", "a \\leq b", "2 + 2 = 4",
                          "\\mathbb{N}", "p_{i}^{2}", "X \\subset Y"])

    def meta(self, pre, *, label=True, types=True, title=False, nonum=False, icon=False,
             reftext=False, plabel=None):
        p, m = self.p, []
        if label and self.chance(p["labels"] if plabel is None else plabel):
            m.append(["label", self.newlabel(pre)])
        if types and self.chance(p["types"]):
            m.append(["types", self.r.choices(TYPES[:5] if self.chance(.7) else TYPES, k=self.w([(1, 4), (2, 3), (3, 2)]))])
        if title and self.chance(p["title"]):
            m.append(["title", self.pick(TITLES)])
        if nonum and self.chance(p["nonum"]):
            m.append(["nonum", True])
        if icon and self.chance(p["icon"]):
            m.append(["icon", self.pick(ICONS)])
        if reftext and self.chance(p["reftext"]):
            m.append(["reftext", self.pick(["Thing", "the big one", "Q"] if not p["rtbraces"] else ["Thing", "the big one", "It", "Q", "No «number»", "the «nodeclass»", "X-«number»"])])
        self.r.shuffle(m)
        return m

    # -- inline content
    def inls(self, depth=0, mathblock=False, instep=0, n=None):
        out, p = [], self.p
        n = n or self.r.randint(1, self.p["inls"])
        for _ in range(n):
            x = self.inl(depth, mathblock, instep)
            # two adjacent texts are one text to the parser
            if x["i"] == "text" and out and out[-1]["i"] == "text":
                continue
            x["sep"] = self.pick(["", ""]) if self.chance(self.p["joins"]) else (
                "\n" if self.chance(self.p["newlines"]) else " ")
            if self.chance(0.05):
                x["sep"] = self.pick(["  ", "\n   ", "\n ", "\t", " \t", "\n\t"])
            out.append(x)
            if self.chance(p["icomment"]) and len(out) > 1 and "\n" not in str(x.get("s", "")):
                out.append({"i": "comment", "s": self.words(), "sep": " "})
        if out[-1]["i"] == "comment":
            out.append({"i": "text", "s": self.words(), "sep": "\n"})
        if out[0]["i"] not in ("text",) and not self.chance(0.3):
            out.insert(0, {"i": "text", "s": self.words(), "sep": ""})
        out[0]["sep"] = ""
        return out

    def inl(self, depth, mathblock, instep):
        p = self.p
        k = self.w([("text", 4), ("strong", p["emph"] * .5), ("em", p["emph"] * .5),
                    ("span", p["emph"] * .7), ("math", p["math"]), ("code", p["icode"]),
                    ("ref", p["refs"]), ("cite", p["cites"] if self.bibkeys else 0),
                    ("url", p["url"]), ("prev", p["prev"] * 2 if instep else 0),
                    ("note", p["notes"] if depth == 0 else 0), ("draft", p["drafts"] if depth == 0 else 0),
                    ("construct", p["constructs"] if depth < 2 else 0), ("qed", p["qed"]),
                    ("mathblock", p["mathblock"] * 1.2 if mathblock else 0)])
        if k == "text":
            return {"i": "text", "s": self.text()}
        if k in ("strong", "em"):
            return {"i": k, "s": self.words(1, 3)}
        if k == "span":
            m = self.meta("sp")
            for f in ("strong", "emphas"):
                if self.chance(0.25):
                    m.append([f, True])
            self.r.shuffle(m)
            c = self.inls(depth + 1, False, instep, n=self.r.randint(1, 3)) if (
                depth < 2 and self.chance(p["nestspan"])) else [{"i": "text", "s": self.words(), "sep": ""}]
            return {"i": "span", "meta": m, "c": c}
        if k == "math":
            return {"i": "math", "meta": self.meta("m") if self.chance(0.2) else [], "s": self.mathtext(),
                    "long": self.chance(0.25)}
        if k == "code":
            return {"i": "code", "s": self.pick(["x = 1", "foo()", "a", "for i in x"]),
                    "lang": "python" if self.chance(0.3) else "",
                    "meta": self.meta("c") if self.chance(0.2) else []}
        if k == "ref":
            d = {"i": "ref", "to": None, "bad": self.chance(p["badrefs"]),
                 "text": self.reftext() if self.chance(p["textref"]) else ""}
            self.future.append(d)
            return d
        if k == "cite":
            ks = [self.pick(self.bibkeys) if not self.chance(p["badrefs"]) else self.pick(["nokey", "zip"])
                  for _ in range(self.w([(1, 5), (2, 2), (3, 1)]))]
            if len(ks) > 1 and self.chance(.15):
                ks[-1] = ks[0]
            return {"i": "cite", "to": ks, "csep": self.pick([",", ",", ", ", " , "])}
        if k == "url":
            return {"i": "url", "to": self.pick(["http://a.org", "https://ex.com/x"]),
                    "text": self.reftext() if self.chance(0.5) else ""}
        if k == "prev":
            kk = self.r.randint(1, max(1, min(instep - 1, 4))) if p["strictprev"] else self.r.randint(1, 4)
            if p["strictprev"] and instep < 2:
                return {"i": "text", "s": self.text()}
            form = self.pick(["short", "long"]) if kk <= 3 else "long"
            return {"i": "prev", "k": kk, "form": form,
                    "text": self.reftext() if form == "long" and self.chance(0.4) else ""}
        if k == "note":
            return {"i": "note", "meta": self.meta("n"), "c": self.inls(depth + 1, False, instep, n=2)}
        if k == "draft":
            return {"i": "draft", "c": [{"i": "text", "s": self.words(), "sep": ""}]}
        if k == "construct":
            return {"i": "construct", "kind": self.pick(CONSTR),
                    "meta": self.meta("k") if self.chance(.3) else [],
                    "c": self.inls(depth + 1, False, instep, n=self.r.randint(1, 3))}
        if k == "qed":
            return {"i": "qed"}
        if k == "mathblock":
            return self.mathblock()
        raise AssertionError(k)

    def mathblock(self):
        m = self.meta("eq", nonum=True, reftext=True)
        if self.chance(self.p["isclaim"]):
            m.append(["isclaim", True])
        return {"i": "mathblock", "meta": m, "s": self.mathtext()}

    def par(self, instep=0, plain=False):
        d = {"b": "par", "inl": self.inls(0, self.p["mathblock"] > 0, instep), "meta": []}
        if not plain and self.chance(0.35):
            if d["inl"][0]["i"] == "mathblock":
                d["inl"].insert(0, {"i": "text", "s": self.words(), "sep": ""})
            d["meta"] = self.meta("par", title=self.chance(0.5), icon=True, nonum=False)
        return d

    # -- blocks
    def step(self, depth, idx):
        """idx: 1-based position among its sibling steps"""
        d = {"b": "step", "meta": self.meta("st", icon=False), "pars": [], "subs": [], "p": None}
        n = self.w([(1, 5), (2, 2)])
        for _ in range(n):
            d["pars"].append(self.par(instep=idx, plain=True))
        if depth < self.p["depth"]:
            k = self.w([("none", 3), ("subs", 2), ("p", 1.5)])
            if k == "subs":
                d["subs"] = [self.step(depth + 1, i + 1) for i in range(self.r.randint(1, self.p["steps"]))]
            elif k == "p":
                d["p"] = {"meta": self.meta("sp"), "c": self.proofitems(depth + 1)}
        return d

    def proofitems(self, depth, n=None):
        out, idx = [], 0
        for _ in range(n or self.r.randint(1, self.p["steps"])):
            if self.chance(0.75):
                idx += 1
                out.append(self.step(depth, idx))
            else:
                k = self.w([("par", 4), ("mathpar", 2 * self.p["unnested_math"] + .5), ("list", .4), ("thm", .3), ("code", .3),
                            ("fig", .3), ("sketch", .2), ("proof", .4)])
                out.append(self.par(plain=True) if k == "par" or depth > 3 else self.block(k, 3))
        return out

    def blocks(self, depth, n=None, kinds=None):
        p, out = self.p, []
        n = self.r.randint(1, p["blocks"]) if n is None else n
        for _ in range(n):
            k = self.w(kinds or [("par", p["par"]), ("thm", p["thm"] if depth < 3 else 0), ("proof", p["proof"]),
                        ("sketch", p["sketch"]), ("list", p["lists"]), ("fig", p["fig"]), ("table", p["table"]),
                        ("code", p["code"]), ("alg", p["alg"]), ("comment", p["comments"]),
                        ("mathpar", p["unnested_math"])])
            out.append(self.block(k, depth))
        return out

    def block(self, k, depth):
        p = self.p
        if k == "par":
            return self.par()
        if k == "mathpar":
            return {"b": "mathpar", "c": dict(self.mathblock(), long=self.chance(.2))}
        if k == "thm":
            cls = self.pick(THMS)
            bs = self.blocks(depth + 2, n=self.r.randint(1, 2),
                             kinds=[("par", 3), ("list", p["lists"]), ("thm", .3 if depth < 2 else 0),
                                    ("proof", .4 * p["proof"]), ("table", .2 * p["table"]), ("fig", .2 * p["fig"])])
            return {"b": "thm", "cls": cls, "blocks": bs,
                    "meta": self.meta("thm", title=True, nonum=True, icon=True, reftext=True)}
        if k == "proof":
            return {"b": "proof", "meta": self.meta("pf", icon=True), "items": self.proofitems(1)}
        if k == "sketch":
            return {"b": "sketch", "meta": self.meta("sk", icon=True), "blocks": [self.par(plain=True)]}
        if k == "list":
            items = [{"meta": self.meta("it"), "inl": self.inls()} for _ in range(self.r.randint(1, 3))]
            return {"b": "list", "kind": self.pick(["enumerate", "itemize"]), "meta": self.meta("li"), "items": items}
        if k == "fig":
            m = self.meta("fig", nonum=True, reftext=True)
            m.append(["path", self.pick(["assets/a.png", "b.svg", "x/y/z.jpg"])])
            if self.chance(0.4):
                m.append(["scale", self.pick(["2.0", "0.5"])])
            self.r.shuffle(m)
            return {"b": "fig", "meta": m, "cap": self.inls(1) if self.chance(0.7) else None, "capm": self.meta("cap", plabel=.3) if self.chance(.5) else []}
        if k == "table":
            ncol = self.r.randint(1, 3)
            row = lambda: {"short": self.chance(0.5), "cells": [[{"i": "text", "s": self.words(1, 2), "sep": ""}] if
                           self.chance(.7) else [{"i": "text", "s": self.words(1, 1), "sep": ""},
                                                 {"i": "math", "meta": [], "s": "x", "sep": " ", "long": False}]
                           for _ in range(ncol)]}
            row = self.with_cell_meta(row)
            return {"b": "table", "meta": self.meta("tab", nonum=True, reftext=True),
                    "head": [row()] if self.chance(0.5) else [], "body": [row() for _ in range(self.r.randint(1, 2))],
                    "cap": self.inls(1) if self.chance(0.5) else None, "capm": self.meta("cap", plabel=.3) if self.chance(.5) else []}
        if k == "code":
            m = self.meta("cb")
            if self.chance(0.5):
                m.append(["lang", "python"])
            return {"b": "code", "meta": m, "s": self.pick(["x = 1\ny = 2", "def f(a):\n    return a", "foo()", "if a:\n\tb()"])}
        if k == "alg":
            return {"b": "alg", "meta": self.meta("al", nonum=True),
                    "s": "\\begin{algorithm}\n\\STATE x = 1\n\\end{algorithm}"}
        if k == "comment":
            return {"b": "comment", "s": self.words()}
        raise AssertionError(k)

    def with_cell_meta(self, row):
        def make():
            r = row()
            r["cm"] = [self.meta("td") if not r["short"] and self.chance(0.4) else [] for _ in r["cells"]]
            return r
        return make

    def sec(self, lvl, depth):
        form = {"hash": "hash", "tag": "tag"}.get(self.p["headings"]) or self.pick(["hash", "tag"])
        return self.sec_form(lvl, depth, form)

    def sec_form(self, lvl, depth, form):
        m = self.meta("sec", nonum=True, icon=True, reftext=True, plabel=max(self.p["labels"], .5))
        d = {"b": "sec", "lvl": lvl, "form": form, "title": self.title(), "meta": m,
             "blocks": self.blocks(depth, n=self.r.randint(0, max(1, self.p["blocks"] // 2))), "secs": []}
        if lvl < 3:
            for _ in range(self.w([(0, 3), (1, 2), (2, 1.5), (3, .5)])):
                l2 = lvl + 1
                if lvl == 1 and self.chance(self.p["skiplevels"]):
                    l2 = 3
                d["secs"].append(self.sec_form(l2, depth + 1, form))
        return d

    def bibentry(self, key):
        kind = self.pick(["article", "book"])
        f = [[k, v] for k, v in [("author", "A. Smith and B. Jones"), ("title", "On " + self.words(1, 2)),
                                 ("year", str(self.r.randint(1950, 2020))), ("journal", "J. Math."), ("volume", "12"),
                                 ("publisher", "Springer"), ("doi", "10.1000/xyz")]
             if self.chance(0.8)]
        return {"kind": kind, "key": key, "f": f}

    def doc(self):
        p = self.p
        n = self.r.randint(0, 4) if self.chance(p["bib"]) else 0
        self.bibkeys = [f"key{i}" for i in range(n)]
        self.labels += self.bibkeys if self.chance(0.1) else []
        d = {"title": self.title() if self.chance(p["title"]) else "", "titleform": self.pick(["hash", "meta"]),
             "meta": [], "front": [], "blocks": [], "secs": [], "bib": None}
        if self.chance(p["abstract"]):
            d["front"].append({"b": "abs", "kw": [self.words(1, 2) for _ in range(self.r.randint(0, 2))],
                               "msc": [self.pick(["11A", "22B"])] if self.chance(.4) else [], "blocks": [self.par(plain=True)],
                               "meta": self.meta("abs")})
        if self.chance(p["author"]):
            d["front"].append({"b": "author", "f": [[k, v] for k, v in [("name", "Ann Author"), ("affiliation", "Univ X"),
                                                                       ("email", "a@x.org")] if self.chance(.7)],
                               "meta": self.meta("au")})
        if self.chance(p["toc"]):
            d["front"].append({"b": "toc"})
        d["blocks"] = self.blocks(1)
        if self.chance(p["sections"]):
            app = None
            k = self.r.randint(1, 4)
            if self.chance(p["appendix"]):
                app = self.r.randint(0, k)
            form = {"hash": "hash", "tag": "tag"}.get(p["headings"]) or self.pick(["hash", "tag"])
            for i in range(k):
                if app == i:
                    d["secs"].append({"b": "appx"})
                d["secs"].append(self.sec_form(1, 1, form))
            if app == k:
                d["secs"].append({"b": "appx"})
            if self.chance(p["seqtoc"]):
                d["front"].append({"b": "toc"})
        if n or self.chance(.05):
            # the bibliography block must be followed by the entries
            ent = [self.bibentry(k) for k in self.bibkeys]
            if len(ent) > 1 and self.chance(0.1):
                ent[-1]["key"] = ent[0]["key"]
            d["bib"] = ent
        # resolve references to labels, forwards or backwards
        for f in self.future:
            f["to"] = self.pick(self.labels) if self.labels and not f["bad"] else self.pick(["nope", "missing"])
        return d


    # -- documents that have a lot of one thing
    def long(self, what):
        d = {"title": "Alpha", "titleform": "meta", "meta": [], "front": [], "blocks": [], "secs": [], "bib": None}
        t = lambda s="word": {"i": "text", "s": s, "sep": " "}
        many = self.r.randint(11, 14)
        par = lambda inl: {"b": "par", "meta": [], "inl": inl}
        if what == "cites":
            self.bibkeys = ["key0", "key1", "key2"]
            d["bib"] = [self.bibentry(k) for k in self.bibkeys]
            inl = []
            for _ in range(many):
                inl += [t(), {"i": "cite", "to": [self.pick(self.bibkeys) for _ in range(self.w([(1, 4), (2, 1)]))], "sep": " "}]
            d["blocks"] = [par(inl)]
        elif what in ("sections", "appendix"):
            k = self.r.randint(27, 30) if what == "appendix" else many
            d["front"] = [{"b": "toc"}]
            d["secs"] = [self.sec_form(1, 3, "hash") if i in (1, k - 1) else
                         {"b": "sec", "lvl": 1, "form": "hash", "title": "Beta", "meta": self.meta("sec", nonum=True),
                          "blocks": [], "secs": []} for i in range(k)]
            if what == "appendix":
                d["secs"].insert(self.r.randint(0, 1), {"b": "appx"})
        elif what == "steps":
            steps = [self.step(3, i + 1) for i in range(many)]
            steps[-1]["pars"] = [par([t("by"), {"i": "prev", "k": many - 1 - self.r.randint(0, 2), "form": "long",
                                                "text": "", "sep": " "}])]
            d["blocks"] = [{"b": "proof", "meta": [], "items": steps}]
        elif what == "deep":
            x = self.step(9, 1)
            for i in range(self.r.randint(5, 8)):
                y = self.step(9, 1)
                if self.chance(.5):
                    y["subs"] = [x] + ([self.step(9, 2)] if self.chance(.5) else [])
                else:
                    y["p"] = {"meta": [], "c": [x]}
                x = y
            d["blocks"] = [{"b": "proof", "meta": [], "items": [x]}]
        elif what == "theorems":
            d["secs"] = [{"b": "sec", "lvl": 1, "form": "tag", "title": "Beta", "meta": [], "secs": [],
                          "blocks": [{"b": "thm", "cls": self.pick(THMS), "meta": self.meta("thm", title=True, nonum=True),
                                      "blocks": [par([t()])]} for _ in range(many)]}]
        elif what == "equations":
            inl = [t()]
            for _ in range(many):
                inl += [dict(self.mathblock(), sep="\n")] + ([t()] if self.chance(.5) else [])
            d["blocks"] = [par(inl)]
        elif what == "notes":
            inl = []
            for _ in range(many):
                inl += [t(), {"i": "note", "meta": self.meta("n"), "c": [t()], "sep": " "}]
            d["blocks"] = [par(inl)]
        for f in self.future:
            f["to"] = self.pick(self.labels) if self.labels and not f["bad"] else self.pick(["nope", "missing"])
        return d


LONG = ("cites", "sections", "appendix", "steps", "deep", "theorems", "equations", "notes")


# ------------------------------------------------------------------ source text
MARK = "\x02"              # marks the beginning of a section or a display equation
VERB = "\x01"              # marks the beginning of a line that is taken verbatim


def metaval(v):
    if v is True:
        return ""
    if isinstance(v, list):
        return f" {{{', '.join(v)}}}" if len(v) > 1 else " " + v[0]
    return " " + v


def inlmeta(m):
    if not m:
        return ""
    out = []
    for k, v in m:
        if v is True:
            out.append(f":{k}:")
        elif isinstance(v, list):
            out.append(f":{k}: {{{', '.join(v)}}}" if len(v) > 1 else f":{k}: {v[0]}")
        else:
            out.append(f":{k}: {v}")
    return "{" + ", ".join(out) + "}"


def blkmeta(m, ind):
    return "".join(f"{' ' * ind}:{k}:{metaval(v)}\n" for k, v in m)


def inl_src(x):
    k = x["i"]
    if k == "text":
        return x["s"]
    if k == "strong":
        return f"*{x['s']}*"
    if k == "em":
        return f"/{x['s']}/"
    if k == "span":
        return f":span:{inlmeta(x['meta'])} {inls_src(x['c'])} ::" if x["meta"] else f":span: {inls_src(x['c'])} ::"
    if k == "math":
        m = inlmeta(x["meta"])
        if x.get("long"):
            return f":math:{m} {x['s']} ::"
        return f"${m} {x['s']}$" if m else f"${x['s']}$"
    if k == "code":
        m = list(x["meta"])
        if x["lang"]:
            m.append(["lang", x["lang"]])
        return f":code: {inlmeta(m)} {x['s']} ::" if m else f"`{x['s']}`"
    if k == "ref":
        return f":ref:{x['to']}{',' + x['text'] if x['text'] else ''}::"
    if k == "cite":
        return f":cite:{x.get('csep', ',').join(x['to'])}::"
    if k == "url":
        return f":url:{x['to']}{',' + x['text'] if x['text'] else ''}::"
    if k == "prev":
        if x["form"] == "short":
            return ":prev:" if x["k"] == 1 else f":prev{x['k']}:"
        return f":previous:{x['k']}{',' + x['text'] if x['text'] else ''}::"
    if k == "note":
        return f":note:{inlmeta(x['meta'])} {inls_src(x['c'])} ::"
    if k == "draft":
        return f":draft: {inls_src(x['c'])} ::"
    if k == "construct":
        return f":{x['kind']}:{inlmeta(x['meta'])} {inls_src(x['c'])} ::"
    if k == "mathblock":
        if x.get("long"):
            return MARK + ":mathblock:\n" + blkmeta(x["meta"], 2) + VERB + x["s"].replace("\n", "\n" + VERB) + "\n::"
        return MARK + "$$\n" + blkmeta(x["meta"], 2) + VERB + x["s"].replace("\n", "\n" + VERB) + "\n$$"
    if k == "qed":
        return ":qed:"
    if k == "comment":
        return "% " + x["s"]
    if k == "raw":
        return x["s"]
    raise AssertionError(k)


def inls_src(xs):
    s = ""
    for i, x in enumerate(xs):
        mb = x["i"] == "mathblock" or (i and xs[i - 1]["i"] == "mathblock")
        com = i and xs[i - 1]["i"] == "comment" and "\n" not in x["sep"]
        s += ("" if i == 0 else "\n" if mb or com else x["sep"]) + inl_src(x)
    return s


def par_src(b):
    m = b["meta"]
    if m:
        return f":paragraph:{inlmeta(m)} " + inls_src(b["inl"]) + "\n\n"
    return inls_src(b["inl"]) + "\n\n"


def block_src(b):
    k = b["b"]
    if k == "par":
        return par_src(b)
    if k == "mathpar":
        return inl_src(b["c"]) + "\n\n"
    if k == "sec":
        body = "".join(block_src(x) for x in b["blocks"] + b["secs"])
        if b["form"] == "hash":
            return MARK + "#" * (b["lvl"] + 1) + " " + b["title"] + "\n" + blkmeta(b["meta"], 2) + "\n" + body
        tag = ["section", "subsection", "subsubsection"][b["lvl"] - 1]
        return f"{MARK}:{tag}:\n" + (f"  :title: {b['title']}\n" if b["title"] else "") + blkmeta(b["meta"], 2) + "\n" + body
    if k == "thm":
        return f":{b['cls']}:\n" + blkmeta(b["meta"], 2) + "\n" + "".join(block_src(x) for x in b["blocks"]) + "::\n\n"
    if k == "proof":
        return ":proof:\n" + blkmeta(b["meta"], 2) + "\n" + "".join(block_src(x) for x in b["items"]) + "::\n\n"
    if k == "sketch":
        return ":sketch:\n" + blkmeta(b["meta"], 2) + "\n" + "".join(block_src(x) for x in b["blocks"]) + "::\n\n"
    if k == "step":
        s = ":step:\n" + blkmeta(b["meta"], 2) + "\n" + "".join(par_src(x) for x in b["pars"])
        s += "".join(block_src(x) for x in b["subs"])
        if b["p"] is not None:
            s += ":p:\n" + blkmeta(b["p"]["meta"], 2) + "\n" + "".join(block_src(x) for x in b["p"]["c"]) + "::\n\n"
        return s + "::\n\n"
    if k == "list":
        s = f":{b['kind']}:\n" + blkmeta(b["meta"], 2) + "\n"
        for it in b["items"]:
            s += f":item: {inlmeta(it['meta'])} " + inls_src(it["inl"]) + "\n\n"
        return s + "::\n\n"
    if k == "fig":
        s = ":figure:\n" + blkmeta(b["meta"], 2) + "\n"
        if b["cap"]:
            s += ":caption: " + (inlmeta(b["capm"]) + " " if b.get("capm") else "") + inls_src(b["cap"]) + "\n\n"
        return s + "::\n\n"
    if k == "table":
        s = ":table:\n" + blkmeta(b["meta"], 2) + "\n"

        def row(r):
            if r["short"]:
                return ":tr: " + " : ".join(inls_src(c) for c in r["cells"]) + " ::\n\n"
            return ":tr: " + " ".join(f":td: {inlmeta(m)} {inls_src(c)} ::" if m else f":td: {inls_src(c)} ::" for c, m in zip(r["cells"], r["cm"])) + " ::\n\n"
        if b["head"]:
            s += ":thead:\n\n" + "".join(map(row, b["head"])) + "::\n\n"
        s += ":tbody:\n\n" + "".join(map(row, b["body"])) + "::\n\n"
        if b["cap"]:
            s += ":caption: " + (inlmeta(b["capm"]) + " " if b.get("capm") else "") + inls_src(b["cap"]) + "\n\n"
        return s + "::\n\n"
    if k == "code":
        return ":codeblock:\n" + blkmeta(b["meta"], 2) + "\n" + VERB + b["s"].replace("\n", "\n" + VERB) + "\n::\n\n"
    if k == "alg":
        return ":algorithm:\n" + blkmeta(b["meta"], 2) + "\n" + VERB + b["s"].replace("\n", "\n" + VERB) + "\n::\n\n"
    if k == "comment":
        return "% " + b["s"] + "\n\n"
    if k == "toc":
        return ":toc: ::\n\n"
    if k == "appx":
        return ":appendix:\n\n"
    if k == "abs":
        m = [x for x in b["meta"]]
        if b["kw"]:
            m.append(["keywords", b["kw"]])
        if b["msc"]:
            m.append(["msc", b["msc"]])
        return ":abstract:\n" + blkmeta(m, 2) + "\n" + "".join(block_src(x) for x in b["blocks"]) + "::\n\n"
    if k == "author":
        return ":author:\n" + blkmeta(b["meta"] + b["f"], 2) + "\n::\n\n"
    if k == "raw":
        return b["s"] + "\n\n"
    raise AssertionError(k)


def restyle(s, r):
    """the same document, indented and spaced out differently"""
    out, lines = [], s.split("\n")
    calm = r.random() < .3
    for i, l in enumerate(lines):
        if l.startswith(VERB) or l.startswith(":rsm:") or i + 1 >= len(lines) - 1:
            out.append(l)
        elif not l.strip():
            out.append(l)
            if r.random() < .15:
                out += [""] * r.randint(1, 2)
            if r.random() < .06 and out[-1] == "" and lines[i - 1][:3] != "  :" and not lines[i + 1].startswith(VERB):
                out += ["% " + r.choice(WORDS), ""]
        elif not calm and r.random() < .5:
            out.append(" " * r.randint(1, 6) + l)
        else:
            out.append(l)
    return "\n".join(out)


def to_source(d, style=None, marks=False):
    s = source_lines(d)
    if style is not None:
        i = s.find(":bibtex:")
        s = restyle(s, random.Random(style)) if i < 0 else restyle(s[:i], random.Random(style)) + s[i:]
    return s.replace(VERB, "") if marks else s.replace(VERB, "").replace(MARK, "")


def places(d, style=None):
    """the source, and where (line and column, from 1) its sections and its display equations begin"""
    out = dict(secs=[], maths=[])
    lines = to_source(d, style, marks=True).split("\n")
    for i, l in enumerate(lines):
        while MARK in l:
            j = l.index(MARK)
            l = l[:j] + l[j + 1:]
            out["maths" if l.startswith(("$$", ":mathblock:"), j) else "secs"].append([i + 1, j + 1])
        lines[i] = l
    return "\n".join(lines), out


def source_lines(d):
    s = ":rsm:\n"
    if d["title"] and d["titleform"] == "meta":
        s += f"  :title: {d['title']}\n" + blkmeta(d["meta"], 2)
    else:
        s += blkmeta(d["meta"], 2)
    s += "\n"
    if d["title"] and d["titleform"] == "hash":
        s = ":rsm:\n# " + d["title"] + "\n" + blkmeta(d["meta"], 2) + "\n"
    for b in d["front"] + d["blocks"] + d["secs"]:
        s += block_src(b)
    if d["bib"] is not None:
        s += ":bibliography: ::\n\n"
    s += "::\n"
    if d["bib"]:
        s += "\n:bibtex:\n"
        for e in d["bib"]:
            s += f"@{e['kind']}{{{e['key']},\n" + ",\n".join(f"  {k}={{{v}}}" for k, v in e["f"]) + "\n}\n\n"
        s += "::\n"
    return s
