"""C08: a new message has the documented default in every member."""
from ..plans import *
from ..engine import SEVEN


def check(ctx):
    ps = number(core() + sized(ctx.quick) + [mk_enums(), mk_many(40, "Few")])
    ctx.start(SEVEN, ps)
    cs, others = [], []
    for p in ps:
        for i, m in enumerate(p.messages):
            v = p.default_message(m.name)
            ctx.state(p.ns, m.name)
            ctx.step(2)
            d, s = f"{i} {p.tokens(m.name, v)}", p.size(m.name, v)
            cs.append(Case(f"Z {p.pid} {i}", f"ok {d} | {d} | {s} {s}", p, "default of " + m.name))
            others.append(Case(f"Z {p.pid} {i}", f"ok {d} | {s}", p, "default of " + m.name))
    # twice: a second default must not have been affected by the first
    ctx.sample(command=others[0].cmd, model=others[0].exp)
    ctx.sample(command=others[-1].cmd, model=others[-1].exp)
    ctx.run(SEVEN, ps, lambda L: (cs if L.name in ("c", "cpp") else others) * 2)
