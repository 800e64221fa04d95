"""Runs one property check: enumerate, replay, compare, report."""
from __future__ import annotations
import importlib, json, os, re, shutil, sys, tempfile, threading, time, traceback
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path
from .langs.base import InfraError, BuildFailure, REPO
from .model import ModelError

VERIF = Path(__file__).resolve().parent.parent
EVID = VERIF / "evidence"
FINDINGS = VERIF / "KNOWN_FINDINGS.txt"

LANGS = {"c": ("c", "C"), "cpp": ("c", "Cpp"), "go": ("go", "Go"), "rust": ("rust", "Rust"),
         "csharp": ("csharp", "CSharp"), "typescript": ("ts", "TypeScript"), "zig": ("zig", "Zig"),
         "assemblyscript": ("assemblyscript", "AssemblyScript")}
SIX = ["c", "csharp", "go", "rust", "typescript", "zig"]
SEVEN = SIX + ["cpp"]


def lang(name):
    mod, cls = LANGS[name]
    return getattr(importlib.import_module(f"mc.langs.{mod}"), cls)()


_TAIL = re.compile(r" #.*$")
_LEAK = re.compile(r" LEAK-?\d+")


def norm(o, leaks=False):
    m = _LEAK.search(o) if leaks else None
    o = _LEAK.sub("", _TAIL.sub("", o)).rstrip()
    return o + m[0] if m else o


class Case:
    """one command, what the model says the answer is, and a short description of the state"""
    __slots__ = ("cmd", "exp", "p", "note", "big")

    def __init__(self, cmd, exp, p=None, note="", big=False):
        self.cmd, self.exp, self.p, self.note, self.big = cmd, exp, p, note, big

    def ok(self, got):
        e = self.exp
        if callable(e):
            return e(got)
        if isinstance(e, (tuple, set, frozenset)):
            return got in e
        return got == e

    def expected(self):
        return getattr(self.exp, "__doc__", None) or "predicate" if callable(self.exp) else self.exp


class Ctx:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.root = Path(tempfile.mkdtemp(prefix=f"mc_{pid}_"))
        self.lock = threading.Lock()
        self.viol = []
        self.states = set()          # hashes of model states
        self.transitions = 0         # model steps taken
        self.traces = 0              # commands replayed against real code
        self.per_lang = {}
        self.extra = {}
        self.samples = []
        self.assumptions = []
        self.skipped = 0

    quick = property(lambda self: self.tier == "quick")

    # ------------------------------------------------------------ bookkeeping
    def state(self, *key):
        self.states.add(hash(key))

    def step(self, n=1):
        self.transitions += n

    def sample(self, **kw):
        if len(self.samples) < 12:
            self.samples.append(kw)

    def violation(self, key, **kw):
        with self.lock:
            self.viol.append({"property": self.pid, "key": key, **kw})

    def wd(self, name):
        d = self.root / name
        d.mkdir(parents=True, exist_ok=True)
        return d

    # ------------------------------------------------------------------ build
    def build(self, name, protos, opts=None, tag="", **kw):
        """Runner, or None when the generated code does not build (reported)."""
        L = lang(name)
        for attempt in range(2):
            d = self.wd(f"{name}{tag}{attempt or ''}")
            try:
                return L, L.build(protos, d, opts, **kw)
            except BuildFailure as e:
                err = e
        p = next((q for q in protos if q.pid == err.pid), protos[0])
        self.violation(f"{name}|build|{err.what}", lang=name, what=f"generated code cannot be used: {err.what}",
                       detail=err.detail[-3000:], protocol=p.to_toml() if err.pid is not None or len(protos) == 1 else None)
        return L, None

    def start(self, names, protos, opts=None, tag="", build_kw=None):
        """begin building while the cases are still being enumerated"""
        if not hasattr(self, "pool"):
            self.pool, self.started = ThreadPoolExecutor(8), {}
        for n in names:
            o = opts(n) if callable(opts) else opts
            self.started[n, tag] = self.pool.submit(self.build, n, protos, o, tag, **((build_kw or {}).get(n, {})))

    # -------------------------------------------------------------------- run
    def replay(self, name, runner, cases, leaks=False, timeout=800):
        outs = runner.run([c.cmd for c in cases], timeout)
        bad = 0
        for c, o in zip(cases, outs, strict=True):
            got = norm(o, leaks)
            if not c.ok(got):
                bad += 1
                if got == "skipped":
                    self.skipped += 1
                    continue
                if bad <= 400:
                    self.violation(f"{name}|{c.p.ns if c.p else ''}|{c.cmd}", lang=name, cmd=c.cmd, expected=c.expected(), got=o[:4000], note=c.note,
                                   protocol=c.p.to_toml() if c.p else None)
        with self.lock:
            self.traces += len(cases)
            self.per_lang[name] = self.per_lang.get(name, 0) + len(cases)
        return outs

    def run(self, names, protos, cases, opts=None, leaks=False, tag="", filt=None, build_kw=None, timeout=800):
        """cases: list or function(Lang)->list.  All languages in parallel; each replays every case."""
        def one(n):
            t0 = time.time()
            f = getattr(self, "started", {}).pop((n, tag), None)
            L, r = f.result() if f else self.build(n, protos, opts(n) if callable(opts) else opts, tag, **((build_kw or {}).get(n, {})))
            if r is None:
                return
            t1 = time.time()
            cs = cases(L) if callable(cases) else cases
            if filt:
                cs = [c for c in cs if filt(L, c)]
            self.replay(n, r, cs, leaks, timeout)
            if os.environ.get("MC_TIMES"):
                print(f"  {n}{tag}: build {t1 - t0:.1f} s, replay of {len(cs)} {time.time() - t1:.1f} s", flush=True)
        self.parallel(one, names)

    def parallel(self, fn, items, workers=7):
        with ThreadPoolExecutor(workers) as ex:
            futs = [ex.submit(fn, i) for i in items]
            errs = []
            for f in futs:
                try:
                    f.result()
                except BaseException as e:
                    errs.append(e)
        if errs:
            raise next((e for e in errs if not isinstance(e, InfraError)), errs[0])

    # ----------------------------------------------------------------- report
    def finish(self):
        known = load_findings(self.pid)
        EVID.mkdir(exist_ok=True)
        rdir = EVID / "replay"
        rdir.mkdir(exist_ok=True)
        for f in rdir.glob(f"{self.pid}-*.json"):
            f.unlink()
        hit, new = {}, []
        for v in self.viol:
            k = next((k for k in known if v["key"].startswith(k)), None)
            if k:
                hit.setdefault(k, v)
            else:
                new.append(v)
        for k, what in known.items():
            if k in hit:
                print(f"KNOWN-FINDING: property={self.pid} {what}")
        new.sort(key=lambda v: (v.get("lang", ""), len(v.get("cmd", "")), v["key"]))
        shown = []
        for v in new:
            if sum(1 for s in shown if s.get("lang") == v.get("lang")) < 2:
                shown.append(v)
        for i, v in enumerate(shown):
            f = rdir / f"{self.pid}-{i}.json"
            f.write_text(json.dumps(v, indent=1))
            print(f"VIOLATION property={self.pid} replay={f.relative_to(VERIF)}")
            print("   " + " ".join(str(v.get(x, ""))[:400] for x in ("lang", "note", "what", "cmd")))
            for x in ("expected", "got", "detail"):
                if v.get(x):
                    print(f"     {x}: {str(v[x])[:700]}")
        cov = {"states": len(self.states), "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "per_language": self.per_lang, "samples": self.samples, **self.extra}
        if self.skipped:
            cov["skipped_after_crashes"] = self.skipped
        (EVID / f"{self.pid}.json").write_text(json.dumps({
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
            "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}, indent=1) + "\n")
        print(f"{self.pid} {self.tier}: {len(self.states)} states, {self.transitions} transitions, {self.traces} traces replayed {self.per_lang}; "
              f"{len(new)} violations, {time.time() - self.t0:.1f} s")
        return 1 if new else 0


def load_findings(pid):
    """lines 'finding: property=<id> key=<violation key prefix> :: <what>'"""
    out = {}
    if FINDINGS.exists():
        for l in FINDINGS.read_text().splitlines():
            m = re.match(r"finding: property=(\S+) key=(.*?) :: (.*)", l)
            if m and m[1] == pid:
                out[m[2]] = m[3]
    return out


def main(pid):
    sys.setrecursionlimit(10000)
    mod = importlib.import_module(f"mc.checks.{pid.lower()}")
    rc = 2
    for attempt in range(2):
        ctx = Ctx(pid, getattr(mod, "LEVEL", "model_checking"))
        try:
            mod.check(ctx)
            rc = ctx.finish()
            break
        except InfraError as e:
            # something of ours failed; a violation already established still counts
            print(f"infrastructure: {e}", file=sys.stderr)
            if ctx.viol:
                rc = ctx.finish()
                break
            if time.time() - ctx.t0 > 300:
                break
        finally:
            shutil.rmtree(ctx.root, ignore_errors=True)
    return rc
