"""C19: how a stream delivers its bytes does not matter, and a stream that fails is noticed (Go, C#)."""
import itertools
from ..plans import *

ZERO, EOFDATA, SINGLE, UNEXP, CLOSED = 1, 2, 4, 8, 16


def outcome(p, op, arg, buf, fail, name=None):
    """('ok ...' | 'err' | alternatives, position after)"""
    avail = buf if fail < 0 else buf[:fail]
    try:
        if op == "D":
            v, pos = p.decode(name, avail)
            return f"ok {pos} {arg} {p.tokens(name, v)}"
        if op == "R":
            ms, pos = p.process(avail, 0, arg)
            ok = f"ok {pos} {listtok(p, ms)}"
            stopped = 0 <= arg <= len(ms) or (pos and avail[pos - 1] == 0 and ended(p, avail, arg))
            if fail >= 0 and not stopped:
                return "err" if fail < len(buf) else ("err", ok)      # at its very end, a stream of known length need not be asked again
            return ok
        ms, _ = p.unpack(avail)
        return "ok " + listtok(p, ms)
    except ModelError:
        return "err"


def ended(p, buf, mx):
    """did a terminator end the processing?"""
    pos, n = 0, 0
    while pos < len(buf) and (mx < 0 or n < mx):
        t = buf[pos]
        pos += 1
        if t == 0:
            return True
        _, pos = p.decode(p.messages[t - 1].name, buf, pos)
        n += 1
    return False


def S(p, op, arg, buf, mode=0, cuts=(), fail=-1, name=None):
    exp = outcome(p, op, arg, buf, fail, name)
    if fail >= 0 and mode & EOFDATA and exp != "err":      # the failure came along with the last byte needed: it may be reported
        exp = ("err", *((exp,) if isinstance(exp, str) else exp))
    return Case(f"S {p.pid} {op} {arg} {mode} {len(cuts)} " + "".join(f"{c} " for c in cuts) + f"{fail} x{buf.hex()}", exp, p,
                f"{op} {name or ''} in portions {cuts} mode {mode} fails at {fail}")


def divisions(n, quick):
    """sets of cut positions of n bytes: all of them for short inputs; else all single, all pairs, all even portions"""
    if n <= (9 if quick else 13):
        for k in range(n):
            yield from itertools.combinations(range(1, n), k)
        return
    for a in range(1, n):
        yield (a,)
    for k in range(1, min(n, 24 if quick else 64)):
        yield tuple(range(k, n, k))
    if n <= (40 if quick else 120):
        step = 1 if not quick or n <= 24 else 3
        for a in range(1, n, step):
            for b in range(a + 1, n):
                yield (a, b)


def check(ctx):
    ps = number([mk_stream(), mk_kinds(), mk_nested(), mk_sized("int64", "uint16"), mk_sized("byte", "uint64")] + ([] if ctx.quick else [mk_structs(), mk_adjacent(), mk_same()]))
    names = ["go", "csharp"]
    ctx.start(names, ps)
    cases = []

    def add(c):
        ctx.step()
        cases.append(c)
    for p in ps:
        V = Values(p)
        for mi, m in enumerate(p.messages):
            b = V.base(m.name)
            e = p.encode(m.name, b)
            n = len(e)
            buf = e + b"\1\2"
            short = n <= 40 or not ctx.quick
            for cuts in divisions(n, ctx.quick):
                ctx.state(p.ns, m.name, cuts)
                add(S(p, "D", mi, buf, 0, cuts, -1, m.name))
            for mode in (ZERO, EOFDATA, SINGLE, ZERO | SINGLE, ZERO | EOFDATA, EOFDATA | SINGLE):
                ctx.state(p.ns, m.name, "mode", mode)
                add(S(p, "D", mi, buf, mode, (), -1, m.name))
                add(S(p, "D", mi, e, mode, (n // 2,), -1, m.name))
                t = p.encode(m.name, b, True)
                add(S(p, "R", -1, t + t, mode))
                add(S(p, "R", 1, t + t, mode))
            for f in range(n + 1):
                for mode in ((0, SINGLE, EOFDATA, ZERO, UNEXP | SINGLE, CLOSED) if short else (0, SINGLE, EOFDATA)):
                    ctx.state(p.ns, m.name, "fail", f, mode)
                    add(S(p, "D", mi, buf, mode, (), f, m.name))
                add(S(p, "D", mi, buf[:f], SINGLE, (), -1, m.name))
                add(S(p, "D", mi, buf[:f], EOFDATA, (max(1, f - 1),), -1, m.name))
    # streams of messages
    p = ps[0]
    V = Values(p)
    u = {m.name: p.encode(m.name, V.base(m.name), True) for m in p.messages}
    for seq in [("Aa",), ("Nil", "Nil"), ("Aa", "Txt"), ("Txt", "Lst", "Aa"), ("Lst", "Nil", "Lst"), ("Nil",), ()]:
        for end in (b"", b"\0", b"\0\1\7", b"\x09"):
            buf = b"".join(u[x] for x in seq) + end
            n = len(buf)
            for mx in (-1, 1, len(seq), len(seq) + 1):
                for cuts in divisions(n, ctx.quick):
                    ctx.state(seq, end, mx, cuts)
                    add(S(p, "R", mx, buf, 0, cuts))
                for f in range(n + 1):
                    for mode in (0, SINGLE, EOFDATA, ZERO, UNEXP, CLOSED | SINGLE):
                        ctx.state(seq, end, mx, "fail", f, mode)
                        add(S(p, "R", mx, buf, mode, (), f))
                for mode in range(8):
                    add(S(p, "R", mx, buf, mode))
        ms = [(x, V.base(x)) for x in seq]
        pk = p.pack(ms)
        for cuts in divisions(len(pk), ctx.quick):
            add(S(p, "U", 0, pk, 0, cuts))
        for f in range(len(pk)):
            for mode in (0, SINGLE, EOFDATA, ZERO, UNEXP | SINGLE, CLOSED):
                add(S(p, "U", 0, pk, mode, (), f))
            add(S(p, "U", 0, pk[:f], SINGLE))
        for mode in range(8):
            add(S(p, "U", 0, pk, mode))
    # long strings and lists, delivered in portions around every power of two
    z = ps[3]
    for n in (255, 256, 257, 511, 512, 513, 4095, 4096, 4097, 9000):
        v = [text(n), 9]
        e = z.encode("Str", v)
        mi = z.tag_of("Str") - 1
        for cuts in [(1,), (2,), (3,), (n,), (n + 1,), (n + 2,), (2, n), (5, 517), tuple(range(512, n, 512)), tuple(range(511, n, 511)), tuple(range(1, n, 7))]:
            for mode in (0, ZERO, EOFDATA):
                add(S(z, "D", mi, e, mode, cuts, -1, "Str"))
        for f in (0, 1, 2, 3, 255, 256, 511, 512, 513, 514, n, n + 1, n + 2):
            add(S(z, "D", mi, e, 0, (), min(f, len(e)), "Str"))
        l = [[i % 7 for i in range(n)], [1]]
        l = [[x % 2 for x in l[0]], l[1]]
        e = z.encode("Bools", l)
        mi = z.tag_of("Bools") - 1
        for cuts in [(1,), (8,), (9,), (n,), tuple(range(512, n, 512)), tuple(range(1, n, 13))]:
            add(S(z, "D", mi, e, 0, cuts, -1, "Bools"))
    for c in cases[5:7] + cases[-2:]:
        ctx.sample(command=c.cmd[:300], model=str(c.exp)[:300])
    cs = [c for c in cases if not (int(c.cmd.split(" ", 5)[4]) & ~SINGLE)]
    ctx.extra["note"] = "reads that return nothing yet, or data together with the end or an error, exist in Go only"
    ctx.run(names, ps, lambda L: cs if L.name == "csharp" else cases)
    ctx.assumptions = ["C#: streams that know their length and position", "a stream fails for good"]
