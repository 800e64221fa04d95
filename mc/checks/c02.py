"""C02: reading a conforming encoding restores the message and consumes exactly its bytes."""
from ..plans import *
from ..engine import SIX, SEVEN


def check(ctx):
    ps = number(core() + sized(ctx.quick))
    ctx.start(SEVEN, ps)
    cases = []
    for p in ps:
        vals = list(values(p, 1))
        if not ctx.quick and p.ns in ("Kinds", "Nested", "Stream", "Same"):
            vals += [x for x in values(p, 2, reduced=True)]
        if p.ns.startswith("Sz"):
            vals += list(length_values(p, ctx.quick))
        for i, (name, v) in enumerate(vals):
            ctx.state(p.ns, name, repr(v))
            ctx.step()
            cases.append(D(p, name, v, pre=(b"", b"zz", b"\x00\x01\xff")[i % 3], post=(b"", b"q", b"\x00" * 9, b"\xff" * 9)[i % 4]))
        for m in p.messages:
            b = Values(p).base(m.name)
            for pre in (b"", b"\x07", b"\xff" * 8):
                for post in (b"", b"\x00", b"\xff" * 16):
                    cases.append(D(p, m.name, b, pre, post))
                    ctx.step()
    for c in cases[:2] + cases[-2:]:
        ctx.sample(command=c.cmd[:300], model=c.exp[:300])
    ctx.extra["protocols"] = len(ps)
    ctx.assumptions = ["strings are valid UTF-8", "NaN payloads other than the quiet NaN are not compared"]
    ctx.run(SEVEN, ps, cases)
