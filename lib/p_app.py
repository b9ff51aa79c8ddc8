"""Calls of the program (C22, C24): carried out by the real functions, classes and command line, judged by AppTrace."""
import contextlib
import hashlib
import io
import json
import logging
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

import core
import gen
import p_log
import p_runs
import pipe

CFG = """CONSTANT Props = {"%s"}
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
"""
PIC = bytes(range(256)) * 3
FIXED = dict(
    titleless=":rsm:\n\nSome täxt — here — with $x$.\n\n## One\n\nMore.\n\n::\n",
    figure=":rsm:\n# Pictures\n\n:figure:\n  :path: pic.png\n  :label: one\n\n:caption: The first.\n\n::\n\nSee :ref:one::.\n\n:figure:\n"
           "  :path: sub/other.png\n\n::\n\n::\n",
    noasset=":rsm:\n# Pictures\n\n:figure:\n  :path: missing.png\n\n::\n\n:figure:\n  :path: pic.png\n\n::\n\n::\n",
)


def digest(b):
    return hashlib.sha1(b if isinstance(b, bytes) else b.encode("utf-8", "surrogatepass")).hexdigest()[:12]


def texts(seed):
    """one document of every kind"""
    out, k = dict(FIXED), 0
    while "warned" not in out:
        k += 1
        bad = "clean" in out
        s = gen.to_source(gen.Gen(f"app-{seed}-{k}", blocks=3, rtbraces=0, fig=0, sections=1, labels=.4 if bad else 1, badrefs=.6 if bad else 0,
                                  refs=3 if bad else 1, cites=0, duplabels=0, bib=.3, math=1).doc())
        if not (300 < len(s) < 2500) or not pipe.recognised(s):
            continue
        r = pipe.run(s, want=("pre", "post", "plain", "hr"))
        n = len(r["wparse"]) + len(r["wtf"]) + len(r["wpl"])
        if r["exc"] or (n == 0) == bad or "prev" in s:
            continue
        if not bad:
            out["clean"] = s
        else:
            out["warned"] = s
    out["hopeless"] = p_runs.HOPELESS[seed % len(p_runs.HOPELESS)]
    out["blank"] = ""
    out["refused"] = p_runs.wrong_place(out["clean"])
    out["noprev"] = p_runs.no_prev(out["clean"])
    return out


class scratch:
    """an own directory with a source file and pictures"""

    def __init__(self, src):
        self.src = src

    def __enter__(self):
        self.old = os.getcwd()
        self.dir = tempfile.mkdtemp(prefix="verif-app-")
        os.chdir(self.dir)
        os.mkdir("sub")
        for n, b in (("doc.rsm", self.src.encode()), ("pic.png", PIC), ("sub/other.png", PIC[::-1])):
            with open(n, "wb") as f:
                f.write(b)
        self.before = self.snap()
        return self

    def snap(self):
        res = {}
        for d, _, fs in os.walk("."):
            for f in fs:
                p = os.path.join(d, f)
                res[os.path.relpath(p)] = digest(open(p, "rb").read())
        return res

    def changed(self):
        now = self.snap()
        return sorted([n, h] for n, h in now.items() if self.before.get(n) != h) + sorted([n, "gone"] for n in self.before if n not in now)

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.dir, ignore_errors=True)
        return False


NAMES = {10: "DBG", 20: "INF", 25: "LINT", 30: "WRN", 40: "ERROR", 50: "CRITICAL"}


def event(r):
    pos = []
    if hasattr(r, "start_row"):
        pos = [r.start_row, r.start_col] + ([r.end_row, r.end_col] if hasattr(r, "end_row") else [])
    return dict(lvl=r.levelno, level=NAMES.get(r.levelno, r.levelname), name=r.name, msg=r.getMessage(), file=r.filename, line=r.lineno, pos=pos)


class Gather(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.got = []

    def emit(self, r):
        self.got.append(event(r))


# ------------------------------------------------------- by hand, one stage after the other
KINDS = ("plain", "rails", "railssrc", "tree")


def by_hand(x):
    doc, src, kind = x
    from rsm import builder, linter, reader, transformer, translator, tsparser, writer
    lg = logging.getLogger("RSM")
    lg.propagate = False
    h = Gather()
    lg.handlers = [h]
    lg.setLevel(10)
    ev, dump, res = {}, {}, dict(doc=doc, kind=kind, value="", files=[])
    val = None

    def stage(name, f):
        k, out = len(h.got), io.StringIO()
        try:
            with contextlib.redirect_stdout(out):
                return f(), True
        except Exception as ex:  # noqa: BLE001
            res["failed"] = f"{name} {type(ex).__name__}"
            return None, False
        finally:
            ev[name], dump[name] = h.got[k:], out.getvalue()

    with scratch(src) as s:
        steps = [("reader", lambda v: reader.Reader().read("doc.rsm")), ("parser", lambda v: tsparser.TSParser().parse(src)),
                 ("transformer", lambda v: transformer.Transformer().transform(v))]
        if kind == "tree":
            l = linter.Linter()
            lg.setLevel(10)
            steps.append(("linter", lambda v: l.lint(v)))
        else:
            tr = dict(plain=lambda: translator.Translator(), rails=lambda: translator.HandrailsTranslator(add_source=False),
                      railssrc=lambda: translator.HandrailsTranslator(add_source=True))[kind]()
            steps += [("translator:" + kind, lambda v: tr.translate(v)), ("builder:" + kind, lambda v: builder.FullBuilder().build(v)),
                      ("writer:" + kind, lambda v: writer.Writer().write(v))]
        for name, f in steps:
            val, ok = stage(name, lambda: f(val))
            if not ok:
                break
            if name in ("linter", "translator:" + kind):
                res["value"] = val if isinstance(val, str) else val.sexp(meta=True)
            if name == "writer:" + kind:
                res["files"] = s.changed()
    return dict(res, events=ev, dump=dump)


def app_log(x):
    """everything that a call of the library logs"""
    doc, src = x
    from rsm import app
    seen = []
    old = logging.getLogRecordFactory()

    def factory(*a, **k):
        r = old(*a, **k)
        seen.append(r)
        return r
    logging.setLogRecordFactory(factory)
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            with scratch(src):
                app.render(**(dict(source=src) if src else dict(path="doc.rsm")), loglevel=10)
    except Exception:  # noqa: BLE001
        pass
    finally:
        logging.setLogRecordFactory(old)
    return [event(r) for r in seen if r.name.split(".")[0] == "RSM"]


def refs(txt):
    jobs = [(d, s, k) for d, s in txt.items() for k in KINDS]
    with mp.get_context("fork").Pool(8, maxtasksperchild=1) as pool:
        a = pool.map(by_hand, jobs, chunksize=1)
        logs = dict(zip(txt, pool.map(app_log, list(txt.items()), chunksize=1)))
    out = []
    full = logs["clean"]
    of = lambda d, k: next(r for r in a if r["doc"] == d and r["kind"] == k)
    staged = [e for s in ("parser", "transformer", "translator:plain") for e in of("clean", "plain")["events"].get(s, [])]
    pre = next((i for i, e in enumerate(full) if staged and e == staged[0]), 0)
    start, done = full[:pre], full[pre + len(staged):]
    for d in txt:
        r = dict(doc=d, text={}, files={}, events={}, dump={}, start=start, done=done, hopeless=[], tree=digest(of(d, "tree")["value"]))
        known = {}
        for k in KINDS:
            x = of(d, k)
            r["events"].update(x["events"])
            for s, t in x["dump"].items():
                r["dump"][s] = ["dump:" + s] if t else []
                if t:
                    known["dump:" + s] = t
            if k != "tree":
                r["text"][k], r["files"][k] = digest(x["value"]), x["files"]
                if x["value"]:
                    known[k] = x["value"] + "\n"
        r["known"] = known
        if d in ("hopeless", "blank"):
            r["hopeless"] = logs[d][len(start) + len(r["events"].get("parser", [])) + (d == "blank") * len(r["events"].get("reader", [])):]
        out.append(r)
    return out


# ------------------------------------------------------- calls
def chunks(text, known):
    """what of the known texts standard output consists of"""
    out = []
    while text:
        n = next((n for n, t in sorted(known.items(), key=lambda x: -len(x[1])) if text.startswith(t)), None)
        if n is None:
            return out + ["?" + text[:60]]
        out.append(n)
        text = text[len(known[n]):]
    return out


def flag(kw, name, b):
    if b != "-":
        kw[name] = b == "T"


def command(v, src):
    a = []
    path = {"text": src, "file": "doc.rsm", "neither": "", "nofile": "nowhere.rsm"}[v["src"]]
    if v["src"] in ("text", "neither"):
        a.append("-c")
    if v["hr"] == "T":
        a.append("-r")
    if v["silent"]:
        a.append("--silent")
    if v["level"]:
        a.append("-" + "v" * v["level"])
    if v["time"] == "F":
        a.append("--log-no-timestamps")
    if v["lineno"] == "F":
        a.append("--log-no-lineno")
    if v["fmt"] != "-":
        a += ["--log-format", v["fmt"]]
    return a + [path]


def keywords(v, src):
    kw = {}
    sp = ("srcpath", "plain") if v["front"] == "app" else ("path", "source")
    if v["src"] in ("file", "both", "nofile"):
        kw[sp[0]] = "nowhere.rsm" if v["src"] == "nofile" else "doc.rsm"
    if v["src"] in ("text", "both"):
        kw[sp[1]] = src
    flag(kw, "handrails", v["hr"])
    flag(kw, "run_linter" if v["front"] == "app" else "lint", v["lint"])
    flag(kw, "add_source", v["addsrc"])
    if v["level"] != -1:
        kw["loglevel"] = v["level"]
    if v["fmt"] != "-":
        kw["log_format"] = v["fmt"]
    flag(kw, "log_time", v["time"])
    flag(kw, "log_lineno", v["lineno"])
    return kw


PLAIN_LOCALE = dict(LC_ALL="C", PYTHONUTF8="0", PYTHONCOERCECLOCALE="0")      # files are ASCII unless something else is said
TRACEBACK = "Traceback (most recent call last):"


def carry_out(v, src, known, sub=False):
    """one call; what came of it"""
    from rsm import app, cli
    out, err = io.StringIO(), io.StringIO()
    h = dict(v=v, end="", error="", digest="", files=[], err=[], out=[], stages=[])
    fmt = v["fmt"] if v["fmt"] != "-" else "lint" if (v["front"], v["entry"]) == ("cli", "lint") else "rsm"
    res = None
    with scratch(src) as s:
        if sub:
            p = subprocess.run([sys.executable, "-c", f"import sys; from rsm import cli; sys.exit(cli.{v['entry']}())", *command(v, src)],
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               env=dict(os.environ, PYTHONPATH=core.REPO, PYTHONWARNINGS="ignore", PYTHONIOENCODING="utf-8", **(PLAIN_LOCALE if sub == "C" else {})))
            o, e = p.stdout.decode(), p.stderr.decode()
            if p.returncode:
                h["end"], h["error"] = "error", e.strip().split("\n")[-1].split(":")[0].split(".")[-1]
            e = e.split(TRACEBACK)[0]
        else:
            argv = sys.argv
            try:
                with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
                    if v["front"] == "cli":
                        sys.argv = ["rsm-" + v["entry"]] + command(v, src)
                        rc = getattr(cli, v["entry"])()
                        if rc:
                            h["end"], h["error"] = "error", f"exit {rc}"
                    elif v["front"] == "lib":
                        res = getattr(app, v["entry"])(**keywords(v, src))
                    else:
                        a = dict(parse=app.ParserApp, render=app.ProcessorApp, lint=app.LinterApp, make=app.FullBuildApp)[v["entry"]](
                            **keywords(v, src))
                        h["stages"] = [t.name for t in a.tasks if t.name != "dummy" and getattr(a, t.name, None) is t.obj]
                        res = a.run()
            except SystemExit as ex:
                if ex.code:
                    h["end"], h["error"] = "error", f"exit {ex.code}"
            except Exception as ex:  # noqa: BLE001
                h["end"], h["error"] = "error", type(ex).__name__
            finally:
                sys.argv = argv
            o, e = out.getvalue(), err.getvalue()
        h["files"] = s.changed()
    if v["front"] == "cli":
        # the command line has no result but what it shows
        ch = chunks(o, known)
        shown = [c for c in ch if c in ("plain", "rails", "railssrc")]
        h["out"] = ch
        h["end"] = h["end"] or None
        h["shown"] = shown
    else:
        h["out"] = chunks(o, known)
        if not h["end"]:
            if res is None:
                h["end"] = "nothing"
            elif isinstance(res, str):
                h["end"], h["digest"] = ("text" if res else "empty"), digest(res)
            elif hasattr(res, "sexp"):
                h["end"], h["digest"] = "tree", digest(res.sexp(meta=True))
            else:
                h["end"] = type(res).__name__
    h["err"] = p_log.lines(fmt, e)
    return h


_g = {}


def rec(x):
    hist, sub = x
    txt, kn = _g["txt"], _g["known"]
    lg = logging.getLogger("RSM")
    lg.propagate = False
    return dict(hist=[carry_out(v, txt[v["doc"]], kn[v["doc"]], sub) for v in hist])


INV = "INVARIANTS Order Fed Ends LastOnly SameAsLibrary Printed\nPROPERTY OnlyMake\n"


def check(ctx, part):
    txt = texts(ctx.seed)
    rf = refs(txt)
    _g["txt"], _g["known"] = txt, {r["doc"]: r.pop("known") for r in rf}
    rfile = ctx.path("refs.ndjson")
    with open(rfile, "w") as f:
        for r in rf:
            f.write(json.dumps(r, ensure_ascii=False) + "\n")
    jobs = []
    cfg = 'CONSTANTS Family = "%s"\n MaxLen = %d\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n' + INV
    sim = ("-simulate", f"num={ctx.pick(40, 600)}", "-depth", "24", "-seed", str(ctx.seed))
    with ThreadPoolExecutor(3) as ex:
        runs = dict(zip(("calls", "logs", "histories"), ex.map(lambda a: ctx.tlc("AppCalls", cfg % a[:2], workers=3, args=a[2]),
                                                               [("calls", 1, ()), ("logs", 1, ()), ("histories", 3, sim)])))
    for fam in ("calls", "logs"):
        r = runs[fam]
        hs = [json.loads(x[0]) for x in ctx.tlc_prints(r, "DOC")]
        k = 1 if ctx.thorough else {("calls", "C22"): 4, ("logs", "C22"): 3, ("logs", "C24"): 12}.get((fam, ctx.prop), 1)
        hs = hs[ctx.seed % k::k]
        ctx.parts["app: " + fam] = len(hs)
        jobs += [(h, False) for h in hs]
        cl = [h for h in hs if h[0]["front"] == "cli"]
        n = ctx.pick(32, 300)
        jobs += [(h, True) for h in cl[ctx.seed % 7::max(1, len(cl) // n)]]
        # what is in a file does not depend on where it is read
        fs = [h for h in cl if h[0]["src"] == "file" and h[0]["doc"] in ("titleless", "clean", "figure")]
        jobs += [(h, "C") for h in fs[ctx.seed % 5::max(1, len(fs) // (n // 2))]]
    r = runs["histories"]
    seen = {x[0] for x in ctx.tlc_prints(r, "DOC")}
    hs = [json.loads(x) for x in sorted(seen)][:ctx.pick(300, 4000)]
    ctx.parts["app: histories"] = len(hs)
    jobs += [(h, False) for h in hs]
    recs = core.pmap(rec, jobs)
    for i, r in enumerate(recs):
        r["id"] = f"app-{i}"
        r["sub"] = bool(jobs[i][1])
        for h in r["hist"]:
            if h["end"] is None:
                h["end"] = "shown"
            h.pop("shown", None)
    ctx.sample(dict(calls=[h["v"] for h in recs[-1]["hist"]]))

    def case(r):
        return dict(calls=[dict(h["v"], end=h["end"], error=h["error"], out=h["out"], err=h["err"][:6], files=h["files"][:4]) for h in r["hist"]],
                    texts={h["v"]["doc"]: txt[h["v"]["doc"]] for h in r["hist"]}, subprocess=r["sub"], locale="C" if jobs[int(r["id"].split("-")[1])][1] == "C" else "")
    for k in range(0, len(recs), 3000):
        ctx.validate("AppTrace", recs[k:k + 3000], CFG % ctx.prop, "app", lambda r: r, case, env=dict(REFS=rfile))


def check_c22(ctx):
    p_log.check(ctx)
    check(ctx, "C22")


def check_c24(ctx):
    check(ctx, "C24")
