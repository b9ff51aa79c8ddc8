"""Logging (C22): histories of configurations and events carried out by the real logger, judged by LoggerTrace."""
import contextlib
import io
import json
import logging
import re

import core

CFG = """CONSTANT Props = {"%s"}
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
"""
ANSI = re.compile(r"\x1b\[[0-9;]*m")
CLOCK = re.compile(r"^\d\d:\d\d:\d\d ")
STAMP = re.compile(r"^\d{4}-\d\d-\d\d \d\d:\d\d:\d\d[,.]\d+$")


def lines(fmt, text):
    """what was written, line by line: without colours, times replaced, json taken apart"""
    if text and not text.endswith("\n"):
        text += "(no line end)\n"
    out = []
    for l in text.split("\n")[:-1]:
        if fmt == "json":
            try:
                d = json.loads(l)
                if STAMP.match(str(d.get("time", ""))):
                    d["time"] = "TIME"
                out.append(d if isinstance(d, dict) else dict(broken=l))
            except ValueError:
                out.append(dict(broken=l))
        else:
            out.append(CLOCK.sub("TIME ", ANSI.sub("", l)))
    return out


MSGS = ["plain words", 'with "quotes" and \\ strokes', "ünïcode % s {x}", "a: b, c | d (e:1)"]
NAMES = ["", "parse", "tform", "nodes"]


def rec(x):
    hist, salt = x
    from rsm import linter, rsmlogger
    lg = logging.getLogger("RSM")
    old = (lg.level, lg.handlers[:], lg.propagate)
    lg.propagate = False
    linter.Linter()
    outs, c, res = [], None, []
    try:
        for n, h in enumerate(hist):
            if h["do"] == "config":
                c = h["c"]
                outs.append(io.StringIO())
                with contextlib.redirect_stderr(outs[-1]), contextlib.redirect_stdout(outs[-1]):
                    rsmlogger.config_rsm_logger(c["level"], c["fmt"], c["time"], c["lineno"])
                ev = dict(lvl=0, pos=[])
            else:
                e = h["e"]
                k = salt + n
                part = NAMES[k % 4]
                child = lg.getChild(part) if part else lg
                extra = dict(zip(("start_row", "start_col", "end_row", "end_col"), e["pos"]))
                seen = []
                f = logging.Filter()
                f.filter = lambda r: seen.append(r.lineno) or True
                child.addFilter(f)
                msg = MSGS[k % len(MSGS)]
                child.log(e["lvl"], "%s", msg, extra=extra)
                line = rec.__code__.co_firstlineno
                child.removeFilter(f)
                ev = dict(lvl=e["lvl"], level={10: "DBG", 20: "INF", 25: "LINT", 30: "WRN", 40: "ERROR", 50: "CRITICAL"}[e["lvl"]],
                          name=child.name, msg=msg, file="p_log.py", line=seen[0] if seen else line, pos=e["pos"])
            text = ""
            for o in outs:
                text += o.getvalue()
                o.seek(0)
                o.truncate()
            res.append(dict(do=h["do"], c=h["c"], e=ev, lines=lines(c["fmt"], text)))
    finally:
        lg.handlers, lg.propagate = old[1], old[2]
        lg.setLevel(old[0])
    return dict(hist=res)


def check(ctx):
    inv = "INVARIANTS ExactlyWanted InOrder Printed"
    cfg = "CONSTANT MaxLen = %d\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n%s\n"
    r = ctx.tlc("LoggerRuns", cfg % (2, inv))
    hs = [json.loads(x[0]) for x in ctx.tlc_prints(r, "DOC")]
    hs = [h for h in hs if h[-1]["do"] == "event"]
    ctx.parts["log: configuration and event"] = len(hs)
    r = ctx.tlc("LoggerRuns", cfg % (8, inv), args=("-simulate", f"num={ctx.pick(30, 600)}", "-depth", "9", "-seed", str(ctx.seed)), workers=4)
    long = [json.loads(x) for x in sorted({x[0] for x in ctx.tlc_prints(r, "DOC")})][:ctx.pick(1500, 20000)]
    ctx.parts["log: histories"] = len(long)
    recs = core.pmap(rec, [(h, i) for i, h in enumerate(hs + long)])
    for i, r in enumerate(recs):
        r["id"] = f"log-{i}"
    ctx.sample(dict(history=recs[-1]["hist"]))
    for k in range(0, len(recs), 4000):
        ctx.validate("LoggerTrace", recs[k:k + 4000], CFG % ctx.prop, "log", lambda r: r, lambda r: dict(history=r["hist"]))
