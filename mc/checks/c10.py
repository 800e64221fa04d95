"""C10: generated Zig memory safety: every allocation failure and every cut, with a counting allocator and safety checks on."""
from ..plans import *
from .c04 import zigify
from .c09 import commands, explore, NCase


def check(ctx):
    ps = core() + sized(ctx.quick)
    if ctx.quick:
        ps = [p for p in ps if p.ns != "Structs"]
    ps = number(ps)
    cases = []
    for c in zigify([c for c in commands(ctx, ps, False) if c.cmd[0] != "R" or c.cmd.split(" ")[4] == "1"]):
        n = NCase(c.cmd, c.exp, c.p, c.note)
        n.n = 0
        cases.append(n)
    ctx.sample(command=cases[0].cmd[:300], model=str(cases[0].exp)[:300])
    ctx.sample(command="A 1 0 " + cases[1].cmd[:300], model="err, nothing leaked")
    ctx.assumptions = ["Debug safety checks report out-of-bounds accesses; released memory is overwritten", "single allocation failures"]
    explore(ctx, "zig", ps, cases, (0,))
