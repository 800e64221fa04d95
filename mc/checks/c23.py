"""C23: operations on separate messages and buffers do not disturb each other, however two threads interleave.

Every schedule with at most two switches away from a running operation (three in the thorough tier) is executed on the
real code: the generated code is compiled with a scheduling point at each memory access (C, C++, Rust, Zig) or each
statement (Go, C#), and two real threads are run one at a time, switched at every combination of points."""
import itertools, os, re, time
from concurrent.futures import ThreadPoolExecutor
from ..plans import *
from ..engine import norm, lang
from ..langs.base import sh, InfraError, BuildFailure
from .c04 import zigify
from .c07 import P
from .c16 import z_exp

S, M = Struct, Member


def mk():
    en = [Enum("Col", [("Red", 5), ("Blue", 0), ("Green", 300)])]
    st = [S("Pt", [M("x", "byte"), M("e", "Col")]), S("Rec", [M("name", "string"), M("tags", "string", True), M("pts", "Pt", True)])]
    ms = [S("Aa", [M("v", "uint16")]), S("Txt", [M("s", "string")]), S("One", [M("r", "Rec"), M("l", "int32", True)]), S("Num", [M("d", "double"), M("q", "uint64"), M("f", "float"), M("b", "bool"), M("h", "int16", True)])]
    return Protocol("Conc", en, st, ms, string_size="uint16", list_size="byte")


VALUES = {          # two values of each message: the two threads work on different data
    "Aa": ([0x1234], [0xabcd]),
    "Txt": ([b"first"], ["zw\u00e9i!".encode()]),
    "One": ([[b"ab", [b"c", b""], [[1, 300]]], [-2, 77]], [[b"", [b"xyz", b"uv"], [[250, 5]]], [9]]),
    "Num": ([F64["e"], 0x8102030405060708, F32["pi"], 1, [-5, 6]], [F64["b"], 3, F32["c"], 0, [300]]),
}


def ops(p, side):
    v = {n: x[side] for n, x in VALUES.items()}
    w = lambda *ns: [(n, v[n]) for n in ns]
    o = {}
    for n in v:
        o[f"write {n}"] = E(p, n, v[n])
        o[f"read {n}"] = D(p, n, v[n])
    st = b"".join(p.encode(n, v[n], True) for n in ("Txt", "Aa"))
    o["stream"] = R_raw(p, st, (-1,), 0, "stream")
    o["cut"] = R_raw(p, st[:-1], (-1,), 0, "stream cut short")
    o["pack"] = P(p, w("Aa", "Txt"))
    o["unpack"] = U_raw(p, p.pack(w("Txt", "Aa")), 0, "unpack")
    o["bad"] = U_raw(p, b"BSCI" + bytes([side]) + b"\0" * 9, 0, "unpack of a bad header")
    o["defaults"] = Case(f"Z {p.pid} {2 + side}", z_exp(p, ["One", "Num"][side]), p, "defaults")
    return o


CONC = os.environ.get("MC_CONC", "go c cpp csharp rust zig").split()


LARGE = ("read One", "write One", "read Num", "write Num")


def pairs(quick):
    """all pairs of operations; in the quick tier two different large ones of the same kind are left out"""
    for a, b in itertools.product(list(ops(mk_(), 0)), repeat=2):
        if not quick or a == b or a not in LARGE or b not in LARGE or a.split()[0] != b.split()[0]:
            yield a, b


def cold_pairs(quick, n):
    """pairs that a fresh process starts with: nothing that the generated code may prepare on first use exists yet"""
    for a, b in pairs(quick):
        if n == "csharp" and quick:
            if a == b and a in ("write One", "read One", "read Num", "stream", "pack", "unpack"):
                yield a, b
        elif a == b or not quick or a.split()[0] == b.split()[0]:
            yield a, b


def mk_():
    return number([mk()])[0]


def judge(ctx, n, got, a, b, sched, p):
    """compare the two answers with the model's"""
    if got == "skipped":
        ctx.skipped += 1
        return None
    key = f"{n}|{a.note}|{b.note}"
    m = re.match(r"(ok|differs) ([^|]*) \|\| (.*?) \|\|(.*)$", got)
    if not m:
        ctx.violation(key, lang=n, cmd=f"{a.cmd} || {b.cmd}", what=f"no answer {sched}", expected="answers of both", got=got[:2000], protocol=p.to_toml())
        return None
    for side, c in enumerate((a, b)):
        r = m[3 + side].strip()
        if not c.ok(r):
            ctx.violation(key, lang=n, cmd=f"{a.cmd} || {b.cmd}", what=f"{'first' if side == 0 else 'second'} operation, schedule {m[2].strip() if m[1] == 'differs' else sched}",
                          expected=c.expected(), got=r[:2000], note=f"{a.note} / {b.note}", protocol=p.to_toml())
            return None
    if m[1] == "differs":
        ctx.violation(key, lang=n, cmd=f"{a.cmd} || {b.cmd}", what="answers vary with the schedule", expected="the same answers", got=got[:2000], protocol=p.to_toml())
        return None
    return m[2].split()


def check(ctx):
    p = mk_()
    A, B = ops(p, 0), ops(p, 1)
    totals = {}

    def one(n):
        try:
            r = lang(n).build([p], ctx.wd(n), points=True)
        except (BuildFailure, InfraError) as e:
            # unusable generated code is a violation; code that only the instrumentation cannot cope with is left out
            if ctx.build(n, [p], tag="plain")[1] is not None:
                totals[n] = {"not_instrumented": str(e)[-500:]}
            return
        z = (lambda c: zigify([c])[0]) if n == "zig" else (lambda c: c)
        a_, b_ = {k: z(c) for k, c in A.items()}, {k: z(c) for k, c in B.items()}
        todo = list(pairs(ctx.quick))
        scheds = dissolved = cold = 0
        points, left = {}, {}

        end = ctx.t0 + (240 if ctx.quick else 560)

        def explore(todo, bound):
            """in portions, so that an end can be made when time is up; what was left out is reported"""
            nonlocal scheds, dissolved

            def go(part):
                while part and (bound == 1 or time.time() < end):
                    now, part = part[:8], part[8:]
                    yield now, r.run([f"X {bound} {8000 if ctx.quick else 30000} {a_[x].cmd} || {b_[y].cmd}" for x, y in now])
                if part:
                    left[bound] = left.get(bound, 0) + len(part)
            with ThreadPoolExecutor(2) as ex:
                for res in ex.map(lambda k: list(go(todo[k::2])), range(2)):
                    for t, out in res:
                        for (x, y), o in zip(t, out, strict=True):
                            f = judge(ctx, n, o, a_[x], b_[y], "alone", p)
                            if f:
                                points[x] = int(f[0])
                                scheds += int(f[2])
                                dissolved += int(f[3])
                                if f[4] not in ("1", "true"):
                                    left[bound] = left.get(bound, 0) + 1
                                else:
                                    ctx.state(n, x, y, bound)
        explore(todo, 1)
        explore(todo, 2)
        if not ctx.quick:
            explore([(x, y) for x, y in todo if 0 < points.get(x, 0) ** 2 * points.get(y, 0) < 6e6 / (4 if n == "csharp" else 1)], 3)

        def fresh(x):
            a, b, i = x
            rc, out = sh(r.argv, cwd=r.cwd, env=r.env, input=f"X -1 {i} {a_[a].cmd} || {b_[b].cmd}\n", timeout=60)
            return out.strip() if rc == 0 else f"crash {rc}"
        jobs = [(a, b, i) for a, b in cold_pairs(ctx.quick, n) for i in range(points.get(a, 0))]
        with ThreadPoolExecutor(4) as ex:
            for (a, b, i), o in zip(jobs, ex.map(fresh, jobs)):
                ctx.state(n, a, b, i, "fresh")
                if judge(ctx, n, o, a_[a], b_[b], f"of a fresh process, switching after {i} points", p):
                    cold += 1
        with ctx.lock:
            ctx.step(scheds + cold)
            ctx.traces += scheds + cold
            ctx.per_lang[n] = scheds + cold
            totals[n] = {"pairs": len(todo), "schedules": scheds, "schedules_of_fresh_processes": cold, "schedules_with_blocked_threads": dissolved, "pairs_not_finished_by_number_of_switches": left,
                         "points_of_each_operation": points}
        if os.environ.get("MC_TIMES"):
            print(f"  {n}: {totals[n]} {time.time() - ctx.t0:.1f} s", flush=True)
    ctx.parallel(one, CONC)
    for x in ("write One", "unpack"):
        ctx.sample(operations=f"{x} / {x}", first=A[x].cmd, second=B[x].cmd, expected=[A[x].expected(), B[x].expected()])
    ctx.extra["schedules"] = totals
    ctx.assumptions = ["threads are switched at scheduling points: memory accesses outside of the own stack (C, C++, Rust, Zig), statements (Go, C#)",
                       "two threads, at most two switches away from an unfinished operation (thorough: three for the smaller operations)", "sequentially consistent memory"]

