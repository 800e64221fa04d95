"""C01: written bytes follow the documented layout."""
from ..plans import *
from ..engine import SIX, SEVEN


def check(ctx):
    ps = number(core() + sized(ctx.quick))
    ctx.start(SEVEN, ps)
    cases, seen = [], 0
    for p in ps:
        is_sized = p.ns.startswith("Sz")
        vals = list(values(p, 1))
        if not ctx.quick and p.ns in ("Kinds", "Nested", "Stream", "Same"):
            vals += [x for x in values(p, 2, reduced=True)]
        if is_sized:
            vals += list(length_values(p, ctx.quick))
        for i, (name, v) in enumerate(vals):
            ctx.state(p.ns, name, repr(v))
            ctx.step()
            cases.append(E(p, name, v, tag=i & 1, pre=(0, 3, 1)[i % 3], post=(2, 0)[(i >> 1) & 1]))
        for m in p.messages:                       # every way of placing one value
            b = Values(p).base(m.name)
            for tag in (0, 1):
                for pre in (0, 1, 8):
                    for post in (0, 3):
                        cases.append(E(p, m.name, b, tag, pre, post))
                        ctx.step()
    for c in cases[:2] + cases[-2:]:
        ctx.sample(command=c.cmd[:300], model=c.exp[:300])
    ctx.extra["protocols"] = len(ps)
    ctx.assumptions = ["list and string lengths representable in the declared size type", "strings are valid UTF-8"]
    ctx.run(SEVEN, ps, cases)
