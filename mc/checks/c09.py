"""C09: generated C memory safety: every allocation failure, every cut, every life cycle, under AddressSanitizer with a counting allocator."""
import re
from ..plans import *

ALLOCS = re.compile(r"#a(\d+)$")


def alloc_cases(c, n, zero, cap):
    """the same command with each of its allocations failing: an error, or exactly the undisturbed answer; never a leak or crash"""
    out = []
    full = c.exp if isinstance(c.exp, str) else c.exp[0]
    for k in range(1, min(n, cap) + 1):
        def ok(got, full=full):
            if "LEAK" in got or "crash" in got or "hang" in got:
                return False
            return got == full or got == "err" or got.startswith("ok") and got.endswith("err") and full.startswith(got[:-3].rstrip())
        ok.__doc__ = f"an error or '{full[:200]}', nothing leaked"
        out.append(Case(f"A {k} {zero} {c.cmd}", ok, c.p, f"{c.note}; allocation {k} of {n} fails"))
    return out


def commands(ctx, ps, kcmd):
    cases = []

    def add(c):
        if c and not c.big:
            cases.append(c)
    for p in ps:
        V = Values(p)
        names = [m.name for m in p.messages]
        for i, m in enumerate(p.messages):
            name, mi = m.name, p.tag_of(m.name)
            vals = [V.base(name), p.default_message(name)]
            if not ctx.quick or p.ns in ("Stream", "Kinds"):
                vals += list(Values(p, reduced=True).enum(name, 1))[:: 3 if ctx.quick else 1]
            if kcmd:
                cases.append(Case(f"K {p.pid} {mi - 1}", f"ok {mi - 1} {p.tokens(name, p.default_message(name))}", p, "create " + name))
            prev = (names[i - 1], V.base(names[i - 1]))
            for j, v in enumerate(vals):
                e = p.encode(name, v)
                add(D_raw(p, name, e, 0, "read"))
                two = p.encode(*prev, True) + bytes([mi]) + e
                add(R_raw(p, two + b"\0", (-1,), note="stream of two"))
                add(U_raw(p, p.pack([prev, (name, v)]), note="pack of two"))
                if j == 0:
                    if kcmd:
                        cases.append(Case(f"E {p.pid} {mi - 1} 1 0 0 {p.tokens(name, v)}", E(p, name, v, 1, 0, 0).exp, p, "write"))
                    for off, t, n in length_fields(p, name, v):
                        for x in (n + 1, 100, RANGE[t][1]):
                            if n < x <= RANGE[t][1]:
                                add(D_raw(p, name, put(e, off, t, x), 0, f"length at {off} = {x}"))
                                add(R_raw(p, p.encode(*prev, True) + bytes([mi]) + put(e, off, t, x), (-1,), note=f"length at {off} = {x}"))
                    for off, en in enum_fields(p, name, v):
                        lo, hi = RANGE[en.encoding]
                        for x in (lo, hi, 3):
                            if x not in [y for _, y in en.values]:
                                add(D_raw(p, name, put(e, off, en.encoding, x), 0, f"enum at {off} = {x}"))
                    add(R_raw(p, two + b"\xff", (-1,), note="unknown tag behind two messages"))
                    add(U_raw(p, put(p.pack([prev, (name, v)]), 4, "uint32", 3), note="pack with too few messages"))
                    add(U_raw(p, put(p.pack([prev, (name, v)]), 4, "uint32", 1), note="pack with more messages"))
                if j == 0 or not ctx.quick:
                    for k in range(len(e)):
                        add(D_raw(p, name, e[:k], 0, f"cut at {k}"))
                        if j == 0:
                            add(R_raw(p, two[:len(two) - len(e) + k], (-1,), note=f"stream cut at {k}"))
        if p.ns == "Stream":
            A = p.encode("Txt", [b"abc"], True)
            for n in (7, 8, 9, 16, 17, 33):
                add(R_raw(p, A * n, (-1,), note=f"stream of {n}"))
                add(R_raw(p, A * n, (n // 2, n), note=f"stream of {n} in two"))
                add(U_raw(p, p.pack([("Txt", [b"abc"])] * n), note=f"pack of {n}"))
                add(U_raw(p, p.pack([("Txt", [b"abc"])] * n)[:-2], note=f"cut pack of {n}"))
    return cases


def explore(ctx, name, ps, cases, zeros, cap=64):
    """pass 1: undisturbed, counting allocations; pass 2: every allocation of every command fails once"""
    L, r = ctx.build(name, ps)
    if r is None:
        return
    for z in zeros:
        for i, (c, o) in enumerate(zip(cases, ctx.replay(name, r, [Case(f"A 0 {z} {c.cmd}", c.exp, c.p, c.note) for c in cases], leaks=True))):
            m = ALLOCS.search(o)
            if z == zeros[0] and m:
                c.n = int(m[1])
                ctx.state(c.p.ns, c.cmd)
                ctx.step(c.n + 1)
    follow = []
    for c in cases:
        if c.n and not (c.cmd[0] in "EP"):
            follow += alloc_cases(c, c.n, zeros[0], cap)
    ctx.extra.setdefault("allocation_failures_explored", {})[name] = len(follow)
    ctx.replay(name, r, follow, leaks=True)


class NCase(Case):
    __slots__ = ("n",)


def check(ctx):
    ps = core() + sized(ctx.quick)
    if ctx.quick:
        ps = [p for p in ps if p.ns != "Structs"]
    ps = number(ps)
    cases = []
    for c in commands(ctx, ps, True):
        n = NCase(c.cmd, c.exp, c.p, c.note)
        n.n = 0
        cases.append(n)
    ctx.sample(command=cases[0].cmd[:300], model=str(cases[0].exp)[:300])
    ctx.sample(command="A 1 0 " + cases[1].cmd[:300], model="err, nothing leaked")
    ctx.assumptions = ["AddressSanitizer and UBSan report every out-of-bounds, use-after-free, double free of the executions explored",
                       "single allocation failures; both kinds of malloc(0)", "a message that could not be read may be destroyed, as docs/languages/c.md says"]
    explore(ctx, "c", ps, cases, (0, 1))
