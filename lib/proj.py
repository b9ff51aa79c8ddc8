"""Projection of the implementation's objects onto the variables of the specification.

Only public things are read: node attributes, children, parent, and the produced HTML.
"""
import re

WS = re.compile(r"[ \t\n\r\f\v]+")


def collapse(s):
    return WS.sub(" ", s)


def cls(n):
    return type(n).__name__


FLAGS = ["strong", "emphas", "little", "insert", "delete"]
BIB = ["author", "title", "year", "journal", "volume", "publisher", "doi"]


def s_(v):
    if v is None:
        return ""
    return str(v)


def preorder(root):
    """document order computed from children only (not by the code's own traverse)"""
    out, stack = [], [root]
    while stack:
        n = stack.pop()
        out.append(n)
        if len(out) > 20000:
            raise RuntimeError("tree too large or cyclic")
        stack.extend(reversed(n.children))
    return out


def project(root, before=None):
    """one record per node, in document order.  `before`: the nodes of an earlier projection; `o` is the
    index in it of the same object, 0 for a new one"""
    nodes = preorder(root)
    known = {id(n): i + 1 for i, n in enumerate(before or [])}
    idx = {id(n): i + 1 for i, n in enumerate(nodes)}
    out = []
    for n in nodes:
        c = cls(n)
        d = dict(
            c=c, k=[idx[id(x)] for x in n.children],
            p=0 if n is root else idx.get(id(n.parent), -1) if n.parent is not None else -2,
            label=s_(n.label), types=[s_(t) for t in n.types], nonum=bool(n.nonum),
            num=s_(n.number), rt=s_(n.reftext_template), hd=int(n.handrail_depth),
            nid=-1 if n.nodeid is None else int(n.nodeid), icon=s_(getattr(n, "icon", "")),
            title=s_(getattr(n, "title", "")), text="", raw="", asis=False, lang=s_(getattr(n, "lang", "")),
            tgt="", tn=0, ow="", tls=[], tns=[], kind=s_(getattr(n, "kind", "")), flags=[],
            claim=bool(getattr(n, "isclaim", False)), prev=False, pk=0, back=[], o=known.get(id(n), 0),
        )
        if before is not None:
            d["full"] = s_(n.full_number) if n.full_number is not None else "None"
            d["reft"] = s_(n.reftext)
        if c == "PendingPrev":
            try:
                d["pk"] = int(str(n.target))
            except ValueError:
                d["pk"] = -1
        if hasattr(n, "text"):
            d["raw"] = s_(n.text)
            d["asis"] = bool(getattr(n, "asis", False))
            d["text"] = collapse(s_(n.text))
        if hasattr(n, "overwrite_reftext"):
            d["ow"] = collapse(s_(n.overwrite_reftext))
        if hasattr(n, "target"):
            t = n.target
            if hasattr(t, "children"):
                d["tn"] = idx.get(id(t), -1)
                d["tgt"] = s_(t.label)
            else:
                d["tgt"] = s_(t)
        if hasattr(n, "targetlabels"):
            d["tls"] = [s_(x) for x in n.targetlabels]
        if hasattr(n, "targets"):
            d["tns"] = [idx.get(id(x), 0) for x in n.targets]
            d["tls"] = [s_(x.label) if id(x) in idx else s_(x.number) for x in n.targets]
        if c in ("Span", "Keyword"):
            d["flags"] = [f for f in FLAGS if getattr(n, f)]
        if "Bibitem" in c:
            d["bib"] = {k: ("" if getattr(n, k) in (None, -1) else s_(getattr(n, k))) for k in BIB}
            d["back"] = [s_(x) for x in n.backlinks]
        if c == "Author":
            d["au"] = {k: s_(getattr(n, k)) for k in ("name", "affiliation", "email")}
        if c == "Abstract":
            d["kw"] = [s_(x) for x in n.keywords]
            d["msc"] = [s_(x) for x in n.msc]
        if c == "Figure":
            d["path"] = s_(n.path)
            d["scale"] = s_(n.scale)
        d["title"] = collapse(d["title"]) if c != "Bibitem" else d["title"]
        out.append(d)
    return out


# ----------------------------------------------------------------- HTML tokens
TAG = re.compile(r"<(/?)([a-zA-Z][a-zA-Z0-9]*)((?:\s+[^\s=<>/\"]+(?:\s*=\s*(?:\"[^\"]*\"|[^\s\"<>]+))?)*)\s*(/?)>")
ATTR = re.compile(r"([^\s=<>/\"]+)(?:\s*=\s*(?:\"([^\"]*)\"|([^\s\"<>]+)))?")
VOID = {"img", "br", "circle", "rect", "stop", "path", "meta", "link", "hr", "input"}
BLOCK = {"body", "div", "section", "p", "h1", "h2", "h3", "h4", "h5", "h6", "ul", "ol", "li", "figure",
         "figcaption", "table", "thead", "tbody", "tr", "td", "caption", "svg", "defs", "g", "lineargradient",
         "mask", "stop", "circle", "rect", "img", "pre", "main", "html", "head", "title", "script", "link", "meta"}


def once(cs):
    """a repeated class that only styles handrails says nothing new"""
    return [c for i, c in enumerate(cs) if not (c.startswith("hr-") and c in cs[:i])]


def tokens(html):
    """list of {t:"o"|"c"|"v"|"x", tag, id, cls[], at[[k,v]], s}.

    White space is normalised the way a browser ignores it: runs become one blank, blanks next to
    a block-level tag disappear.  Inside <code>, <pre> text is kept as is (entities decoded when the
    code is highlighted, inner spans dropped).
    """
    out, pos, n = [], 0, len(html)
    while pos < n:
        m = TAG.search(html, pos)
        end = m.start() if m else n
        if end > pos:
            out.append(dict(t="x", tag="", id="", cls=[], at=[], s=html[pos:end]))
        if not m:
            break
        close, tag, attrs, selfc = m.groups()
        at = []
        for a in ATTR.finditer(attrs or ""):
            at.append([a.group(1), a.group(2) if a.group(2) is not None else (a.group(3) or "")])
        d = dict(t="c" if close else ("v" if (selfc or tag.lower() in VOID) else "o"), tag=tag.lower(),
                 id="", cls=[], at=[], s="")
        for k, v in at:
            if k == "id" and not d["id"]:
                d["id"] = v
            elif k == "class" and not d["cls"]:
                d["cls"] = once(v.split())
            else:
                d["at"].append([k, v])
        d["at"].sort()
        out.append(d)
        pos = m.end()
    return normal(merge_code(out))


def merge_code(toks):
    out, i = [], 0
    import html as H
    while i < len(toks):
        t = toks[i]
        out.append(t)
        i += 1
        if t["t"] == "o" and t["tag"] == "code":
            s, depth = "", 0
            hl = "highlight" in t["cls"]
            while i < len(toks):
                u = toks[i]
                if u["t"] == "c" and u["tag"] == "code":
                    break
                if u["t"] == "x":
                    s += u["s"]
                elif not hl or u["tag"] != "span":
                    s += "<%s%s>" % ("/" if u["t"] == "c" else "", u["tag"])
                i += 1
            if s:
                out.append(dict(t="r", tag="", id="", cls=[], at=[], s=(H.unescape(s) if hl else s).strip("\n")))
    return out


def isblock(t):
    return t["t"] in "ocv" and t["tag"] in BLOCK


def normal(toks):
    out = []
    pre = 0
    for t in toks:
        if t["tag"] == "pre":
            pre += 1 if t["t"] == "o" else -1
        if t["t"] == "x":
            if pre > 0:
                t = dict(t, t="r", s=t["s"].strip("\n"))
                if t["s"]:
                    out.append(t)
                continue
            t = dict(t, s=collapse(t["s"]))
            if out and out[-1]["t"] == "x":
                out[-1]["s"] = collapse(out[-1]["s"] + t["s"])
                continue
        out.append(t)
    res = []
    for i, t in enumerate(out):
        if t["t"] == "x":
            s = t["s"]
            if i == 0 or isblock(out[i - 1]):
                s = s.lstrip(" ")
            if i + 1 == len(out) or isblock(out[i + 1]):
                s = s.rstrip(" ")
            if not s:
                continue
            t = dict(t, s=s)
        res.append(t)
    return res


def compact(toks):
    """[kind, tag, id, classes, attrs, text] arrays (smaller JSON)"""
    return [[t["t"], t["tag"], t["id"], t["cls"], t["at"], t["s"]] for t in toks]
