"""Common machinery of the checks: scratch space, TLC runs, verdicts, evidence."""
import hashlib
import itertools
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(ROOT, "spec")
sys.path.insert(0, REPO)
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True

TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Broken(Exception):
    """the machinery, not the property, failed"""


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.dir = tempfile.mkdtemp(prefix=f"verif-{prop}-")
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.viol, self.notes = [], [], []
        self.parts = {}
        self.n = 0
        self.count = itertools.count(1)

    def path(self, name):
        return os.path.join(self.dir, name)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def elapsed(self):
        return time.time() - self.t0

    def violation(self, clause, case, key=None, part=""):
        """case: whatever is needed to see the failure again"""
        self.viol.append(dict(property=self.prop, clause=clause, key=key or clause, part=part, case=case))

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, env=None, workers=8, args=(), timeout=800, heap="8g", fatal=True):
        """run TLC on spec/<module>.tla with the configuration text `cfg`; returns the parsed output"""
        n = self.n = next(self.count)
        meta = self.path(f"tlc{n}")
        os.makedirs(meta)
        cf = os.path.join(meta, "m.cfg")
        with open(cf, "w") as f:
            f.write(cfg)
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", "-Dtlc2.TLC.ide=none",
               f"-DTLA-Library={SPEC}",
               "-cp", TLA_CP, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
               "-deadlock", "-config", cf, *args, os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ, LANG="C.UTF-8", LC_ALL="C.UTF-8", JAVA_TOOL_OPTIONS="-Dfile.encoding=UTF-8")
        e.update(env or {})
        out = os.path.join(meta, "out")
        with open(out, "w") as f:
            try:
                p = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, env=e, cwd=meta, timeout=timeout)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = -9
        text = open(out, encoding="utf-8", errors="replace").read()
        r = dict(rc=rc, text=text, fails=[], prints=[], error="", states=0, distinct=0)
        for m in re.finditer(r"(\d+) states generated, (\d+) distinct states found", text):
            r["states"], r["distinct"] = int(m.group(1)), int(m.group(2))
        m = re.search(r"^Error:", text, re.M)
        if m or rc not in (0,):
            i = m.start() if m else -1
            r["error"] = text[i if i >= 0 else max(0, len(text) - 3000):][:4000]
        self.states += r["distinct"]
        self.transitions += r["states"]
        if fatal and r["error"]:
            raise Broken(f"TLC on {module}: rc={rc}\n{r['error']}")
        shutil.rmtree(meta, ignore_errors=True)
        return r

    def tlc_prints(self, r, tag):
        """payloads of lines <<"tag", ...>> printed by the specification"""
        res, pre = [], re.compile(rf'<<\s*"{tag}",\s')
        text = r["text"]
        # a tuple may be spread over several lines by TLC's pretty printer
        m = pre.search(text)
        while m:
            i = m.start()
            j, depth, instr = i, 0, False
            while j < len(text):
                ch = text[j]
                if instr:
                    if ch == "\\":
                        j += 1
                    elif ch == '"':
                        instr = False
                elif ch == '"':
                    instr = True
                elif text.startswith("<<", j):
                    depth += 1
                    j += 1
                elif text.startswith(">>", j):
                    depth -= 1
                    j += 1
                    if depth == 0:
                        break
                j += 1
            res.append(parse_tla(text[i:j + 1]))
            m = pre.search(text, j)
        return [x[1:] for x in res]

    # ------------------------------------------------- trace validation
    def validate(self, module, recs, cfg, part, slim, case, chunk=None, env=None, consts=""):
        """check recorded runs against spec/<module>.tla.  `slim(rec)` is what the specification gets to see
        (with a unique "id"), `case(rec)` what is kept for a replay.  One behaviour per record."""
        if not recs:
            return
        bad = self._validate(module, [slim(r) for r in recs], cfg, env)
        byid = {slim(r)["id"] if not isinstance(r, dict) or "id" not in r else r["id"]: r for r in recs}
        for prop, clause, rid, detail in bad:
            if prop == self.prop:
                c = case(byid[rid])
                if detail:
                    c = dict(c, detail=detail)
                self.violation(clause, c, part=part, key=self.keyof(prop, clause, byid[rid]))
        self.traces += len(recs)
        self.parts[part] = self.parts.get(part, 0) + len(recs)

    def keyof(self, prop, clause, rec):
        return clause

    def _validate(self, module, slims, cfg, env, depth=0):
        f = self.path(f"trace{self.n}-{depth}.ndjson")
        with open(f, "w") as fh:
            for s in slims:
                fh.write(json.dumps(s, ensure_ascii=False) + "\n")
        r = self.tlc(module, cfg, env=dict(env or {}, TRACE=f), fatal=False)
        os.unlink(f)
        bad = [(x[0], x[1], x[2], x[3] if len(x) > 3 else "") for x in self.tlc_prints(r, "FAIL")]
        if r["error"]:
            if r["rc"] == -9 or "OutOfMemory" in r["text"] or "StackOverflow" in r["text"] and depth > 8:
                raise Broken(f"TLC on {module}: {r['error']}")
            if "Parsing or semantic analysis failed" in r["text"] or "Could not find" in r["error"]:
                raise Broken(f"TLC on {module}: {r['error']}")
            # the specification cannot be evaluated on some record: find it
            if len(slims) == 1:
                return bad + [(self.prop, "the recorded run has no place in the specification: "
                               + " ".join(r["error"].split())[:300], slims[0]["id"], "")]
            if depth > 12:
                raise Broken(f"TLC on {module}: {r['error']}")
            h = len(slims) // 2
            a = self._validate(module, slims[:h], cfg, env, depth + 1)
            if a:
                return a
            return self._validate(module, slims[h:], cfg, env, depth + 1)
        return bad


def parse_tla(s):
    """a TLA+ value printed by TLC (tuples, strings, numbers, booleans)"""
    pos = 0

    def ws():
        nonlocal pos
        while pos < len(s) and s[pos].isspace():
            pos += 1

    def val():
        nonlocal pos
        ws()
        if s.startswith("<<", pos):
            pos += 2
            out = []
            ws()
            if s.startswith(">>", pos):
                pos += 2
                return out
            while True:
                out.append(val())
                ws()
                if s.startswith(">>", pos):
                    pos += 2
                    return out
                if s[pos] == ",":
                    pos += 1
        if s[pos] == '"':
            j, out = pos + 1, []
            while s[j] != '"':
                if s[j] == "\\":
                    j += 1
                    out.append({"n": "\n", "t": "\t", "r": "\r", "f": "\f"}.get(s[j], s[j]))
                else:
                    out.append(s[j])
                j += 1
            pos = j + 1
            return "".join(out)
        m = re.compile(r"-?\d+|TRUE|FALSE|[^,>\s]+").match(s, pos)
        pos = m.end()
        t = m.group(0)
        if t in ("TRUE", "FALSE"):
            return t == "TRUE"
        try:
            return int(t)
        except ValueError:
            return t

    return val()


def pmap(fn, items, procs=8):
    """map in forked processes (the code under test is imported only there)"""
    import multiprocessing as mp
    items = list(items)
    if len(items) < 8:
        return [fn(x) for x in items]
    ctx = mp.get_context("fork")
    with ctx.Pool(procs) as pool:
        return pool.map(fn, items, chunksize=max(1, min(50, len(items) // (procs * 4))))


# ---------------------------------------------------------------- verdicts
def known():
    """[(property, key regex, text)] of the findings that are recorded and not repaired"""
    out = []
    f = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r"KNOWN-FINDING: property=(\S+) key=(\S+) (.*)", line)
            if m:
                out.append(m.groups())
    return out


def finish(ctx, level, rule, assumptions, extra=None):
    kn = known()
    fresh, seen = [], {}
    for v in ctx.viol:
        hit = next((k for k in kn if k[0] == v["property"] and re.fullmatch(k[1], v["key"])), None)
        if hit:
            seen.setdefault(hit, 0)
            seen[hit] += 1
        else:
            fresh.append(v)
    for k in kn:
        if k[0] == ctx.prop:
            print(f"KNOWN-FINDING: property={k[0]} {k[2]} [seen in {seen.get(k, 0)} cases of this run]")
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    cov = dict(states=ctx.states, transitions=ctx.transitions, traces_validated_against_impl=ctx.traces,
               samples=ctx.samples or ["(none)"], rule=rule, parts=ctx.parts)
    cov.update(extra or {})
    ev = dict(property=ctx.prop, tier=ctx.tier, seed=ctx.seed, level=level, coverage=cov,
              assumptions=assumptions, wall_s=round(ctx.elapsed(), 2), violations=len(fresh))
    with open(os.path.join(ROOT, "evidence", ctx.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    if not fresh:
        print(f"{ctx.prop}: held on {ctx.traces} recorded runs, {ctx.states} model states ({ctx.elapsed():.1f} s) {ctx.parts}")
        return 0
    rd = os.path.join(ROOT, "evidence", "replay")
    os.makedirs(rd, exist_ok=True)
    shown = set()
    for v in fresh:
        if v["clause"] in shown or len(shown) >= 6:
            continue
        shown.add(v["clause"])
        h = hashlib.sha1(json.dumps(v, sort_keys=True, default=str).encode()).hexdigest()[:10]
        p = os.path.join(rd, f"{ctx.prop}-{h}.json")
        with open(p, "w") as f:
            json.dump(v, f, indent=1, ensure_ascii=False, default=str)
        print(f"# {v['part']}: {v['clause']}")
        print(f"VIOLATION property={ctx.prop} replay={p}")
    print(f"{ctx.prop}: {len(fresh)} violations")
    return 1
