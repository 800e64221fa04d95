"""C04: input that ends early is reported as an error, at every entry point."""
from ..plans import *
from ..engine import SIX


def announced(t, n, quick):
    """other values for a length field that announce more than is there"""
    hi = RANGE[t][1]
    c = [n + 1, n + 2, n + 5, 127, 128, 255, 256, 257, 32767, 65535]
    if t != "byte":
        c += [hi, hi - 1, hi // 2, hi // 2 + 1, hi // 4 + 1, hi // 8 + 1, (hi >> 16) << 16, 1 << 32, (1 << 32) + n, 1 << 31, (1 << 31) - 1]
    if not quick:
        c += [n + 3, n + 4, n + 16, 254, 511, 512, 1000, 40000]
    return sorted({x for x in c if n < x <= hi})


def check(ctx):
    ps = number(core() + sized(ctx.quick) + [mk_enums()])
    ctx.start(SIX, ps)
    cases = []

    def add(c):
        if c:
            ctx.step()
            cases.append(c)
    for p in ps:
        V = Values(p)
        other = [(m.name, V.base(m.name)) for m in p.messages if m.members][0]
        for m in p.messages:
            name, mi = m.name, p.tag_of(m.name) - 1
            vals = [V.base(name)]
            if not ctx.quick:
                vals += list(Values(p, reduced=True).enum(name, 1))
            for v in vals:
                e = p.encode(name, v)
                full = bytes([mi + 1]) + e
                lead = bytes([p.tag_of(other[0])]) + p.encode(*other)
                pk = p.pack([other, (name, v)])
                for k in range(len(e)):
                    ctx.state(p.ns, name, e[:k])
                    add(D_raw(p, name, e[:k], 0, "truncated"))
                    add(D_raw(p, name, b"\x01\x02" + e[:k], 2, "truncated behind a prefix"))
                    add(R_raw(p, lead + full[:k + 1], (-1,), note="stream truncated inside the 2nd message"))
                    add(U_raw(p, p.pack([other, (name, v)])[:8 + len(lead) + 1 + k], note="pack truncated inside the 2nd message"))
                # length fields that announce more than there is
                for off, t, n in length_fields(p, name, v):
                    for x in announced(t, n, ctx.quick):
                        b = put(e, off, t, x)
                        ctx.state(p.ns, name, b)
                        add(D_raw(p, name, b, 0, f"length {n} at {off} announced as {x}"))
                        add(R_raw(p, lead + bytes([mi + 1]) + b, (-1,), note=f"length {n} at {off} announced as {x}"))
                        if x in (n + 1, 255):
                            add(U_raw(p, pk[:8] + lead + bytes([mi + 1]) + b + b"\0", note=f"length {n} at {off} announced as {x}"))
    for c in cases[:2] + cases[-2:]:
        ctx.sample(command=c.cmd[:300], model=str(c.exp)[:300])
    ctx.assumptions = ["negative list lengths and huge announced lists of empty structs are unspecified", "results that are not valid UTF-8 are not compared"]
    ctx.run(SIX, ps, lambda L: zigify(cases) if L.name == "zig" else [c for c in cases if not c.big] if L.name == "csharp" else cases)


def zigify(cases):
    """the Zig library has no stream position to report"""
    out = []
    for c in cases:
        if c.cmd[0] == "R" and isinstance(c.exp, str) and c.exp.startswith("ok ") and not c.exp.endswith("err"):
            out.append(Case(c.cmd, "ok " + c.exp.split(" ", 2)[2][:-2], c.p, c.note))
        elif c.cmd[0] == "R" and isinstance(c.exp, str):
            continue
        else:
            out.append(c)
    return out
