"""Run the real pipeline on a source text and record what it does."""
import logging
import os
import re
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import warnings
warnings.filterwarnings("ignore")
sys.dont_write_bytecode = True
import proj  # noqa: E402


class Capture(logging.Handler):
    def __init__(self):
        super().__init__(logging.DEBUG)
        self.recs = []

    def emit(self, r):
        try:
            m = r.getMessage()
        except Exception:
            m = str(r.msg)
        self.recs.append(dict(name=r.name, lvl=r.levelname, no=r.levelno, msg=m,
                              row=getattr(r, "start_row", getattr(r, "row", -1)) if hasattr(r, "start_row") else -1,
                              col=getattr(r, "start_col", -1),
                              pos=(r.start_row, r.start_col, r.end_row, r.end_col) if hasattr(r, "end_row") else ()))


class Logs:
    """collect what the code logs under its own logger, silence everything else"""

    def __enter__(self):
        self.lg = logging.getLogger("RSM")
        self.old = (self.lg.level, self.lg.handlers[:], self.lg.propagate)
        self.h = Capture()
        self.lg.handlers = [self.h]
        self.lg.propagate = False
        self.lg.setLevel(logging.WARNING)
        return self.h

    def __exit__(self, *a):
        self.lg.level, self.lg.handlers, self.lg.propagate = self.old
        self.lg.setLevel(self.old[0])
        return False


WORD = re.compile(r"[^\s\"',]+")


def warns(h, since=0, name=None):
    """the words of each warning; with `name`, only those of that part of the program"""
    return [WORD.findall(r["msg"]) for r in h.recs[since:]
            if r["no"] >= logging.WARNING and (name is None or r["name"] == name)]


_grammar = []


def recognised(src):
    """does the grammar (a program of its own, not under test) find no error in this source?"""
    if not _grammar:
        import tree_sitter
        import tree_sitter_rsm
        _grammar.append(tree_sitter.Parser(tree_sitter.Language(tree_sitter_rsm.language())))
    return not _grammar[0].parse(src.encode()).root_node.has_error


def stage(f):
    try:
        return f(), ""
    except RecursionError:
        return None, "RecursionError"
    except Exception as ex:  # noqa: BLE001
        return None, f"{type(ex).__name__}: {ex}"


def run(src, want=("pre", "post", "plain", "hr"), build=None):
    """record of one document.  `build` makes the tree through the API instead of parsing `src`"""
    from rsm import transformer, translator, tsparser

    rec = dict(src=src, exc="", at="", pre=[], post=[], plain=[], hr=[], wparse=[], wtf=[], wpl=[], whr=[],
               pos=[], lk=[])

    def parse():
        if build is not None:
            return build()
        t = tsparser.TSParser().parse(src)
        # the grammar has no way to write a template for reference texts, so they are set here
        for n in t.traverse() if "«" in src else ():
            n.reftext_template = n.reftext_template.replace("«", "{").replace("»", "}")
        return t

    for mode in ("plain", "hr"):
        if mode == "hr" and "hr" not in want:
            continue
        with Logs() as h:
            t, e = stage(parse)
            if mode == "plain":
                rec["wparse"] = warns(h)
            if e or t is None:
                rec["exc"], rec["at"] = e or "no tree", "parse"
                return rec
            if mode == "plain":
                rec["pre"] = proj.project(t)
                before = proj.preorder(t)
            k = len(h.recs)
            t2, e = stage(lambda: transformer.Transformer().transform(t))
            if mode == "plain":
                rec["wtf"] = warns(h, k, "RSM.tform")
            if e:
                rec["exc"], rec["at"] = e, "transform"
                return rec
            if mode == "plain":
                rec["post"] = proj.project(t, before)
                after = proj.preorder(t)
                now = {id(n): i + 1 for i, n in enumerate(after)}
                rec["pos"] = [now.get(id(n), 0) for n in before]
                rec["lk"] = [now.get(id(t.get_child_by_id(i)), 0) for i in range(len(after))]
                rec["root"] = t
            if mode not in want:
                continue
            k = len(h.recs)
            T = translator.Translator if mode == "plain" else (
                lambda: translator.HandrailsTranslator(add_source=False))
            html, e = stage(lambda: T().translate(t))
            rec["wpl" if mode == "plain" else "whr"] = warns(h, k)
            if e:
                rec["exc"], rec["at"] = e, mode
                return rec
            rec[mode] = proj.compact(proj.tokens(html))
            rec["html_" + mode] = html
    return rec
